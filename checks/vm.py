"""The machine: assembly programs, compiled code, single steps, and the diagram
of the syntax tree."""
import json, math, os, re
from lib import nj, spec, common, gen
from lib.common import conform, compare_all, execute
from . import check
from .util import tpl, some, progs, abyss

NAMES = ["a", "b", "x y", "", "\u00e9", "print", "f"]
BINARY = ["ADD", "SUB", "MUL", "DIV", "MOD", "EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ", "STP"]
INTS = ["0", "1", "2", "3", "-1", "+7", "10", "255", "256", "9223372036854775807", "-9223372036854775807", "4294967296"]
FLTS = ["0.5", "1.0", "-2.25", "+3.75", "100.125", "0.0"]
STRS = ["", "a", "abc", "\u00e9\u4e2d", "q\"q", "t\tn\nr\r", "\\", "; x: ADD", "'"]
OPS0 = ["NOPE", "POS", "NEG", "NOT", "NLB", "SELECT", "SELECT2", "INSERT", "INSERT2", "PUSHTRU", "PUSHFLS", "PUSHNNE", "PUSHTYP", "PUSHNNETYP"] + BINARY


def quoted(t):
    return '"' + "".join({"\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"', "\\": "\\\\"}.get(c, c) for c in t) + '"'


class Asm:
    """random instruction sequences; keeps an idea of how many operands there are"""
    def __init__(self, r, wild=.04):
        self.r, self.wild, self.out, self.n, self.fresh, self.names = r, wild, [], 0, 0, {"LLLLLLLL"}
        self.kinds = []          # a guess at the kinds of the operands

    def emit(self, op, *args, label=None):
        self.out.append((label, op, args))

    def push(self, op, kind, *args, **kw):
        self.emit(op, *args, **kw)
        self.kinds.append(kind)

    def name(self):
        """a fresh label; many are prefixes of one another"""
        r = self.r
        while True:
            if r.random() < .5:
                self.fresh += 1
                n = r.choice(["L", "lab", "_", "x9_", "POP", "end"]) + str(self.fresh)
            else:
                n = r.choice(["loop_target_number_one", "LLLLLLLLLLLLLLLLLL", "PUSHINTEGERVALUE_12345", "a1a1a1a1a1a1a1a1a1"])
                n = n[:r.randint(1, len(n))]
            if n not in self.names:
                self.names.add(n)
                return n

    def value(self, kind=None):
        r = self.r
        k = kind or r.choice("iiiffsbbnLMT")
        if k == "i": self.push("PUSHINT", "i", r.choice(INTS))
        elif k == "f": self.push("PUSHFLT", "f", r.choice(FLTS))
        elif k == "s": self.push("PUSHSTR", "s", quoted(r.choice(STRS)))
        elif k == "b": self.push(r.choice(["PUSHTRU", "PUSHFLS"]), "b")
        elif k == "n": self.push("PUSHNNE", "n")
        elif k == "L": self.push("PUSHLST", "L", r.choice(["0", "1", "8"]))
        elif k == "M": self.push("PUSHMAP", "M", r.choice(["0", "2"]))
        else: self.push("PUSHVAR", "T", quoted(r.choice(["int", "String", "List", "any", "bool"])))

    def call(self, name, n, ret, kinds):
        for k in kinds:
            self.value(k)
        self.push("PUSHVAR", "x", quoted(name))
        self.emit("CALL", str(n), str(ret))
        del self.kinds[-n - 1:]
        self.kinds += ["?"] * ret

    def step(self, depth=0):
        r, K = self.r, self.kinds
        if r.random() < self.wild:
            self.any(); return
        top = K[-1] if K else ""
        c = r.random()
        if not K or c < .22 and len(K) < 12:
            self.value()
        elif c < .30:
            self.emit("ASS", quoted(r.choice(NAMES[:5])))
        elif c < .36:
            self.emit("ASS", quoted("a")); self.push("PUSHVAR", top, quoted("a"))
        elif c < .50 and len(K) > 1 and K[-1] in "if" and K[-2] in "if":
            op = r.choice(BINARY[:-1]); self.emit(op); k = [K.pop(), K.pop()]
            K.append("b" if op in ("EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ") else "f" if "f" in k else "i")
        elif c < .56 and top in "ifb":
            self.emit({"b": "NOT"}.get(top, r.choice(["NEG", "POS"])))
        elif c < .62 and len(K) > 1:
            op = r.choice(["STP", "EQL", "NQL"]); self.emit(op); K.pop(); K.pop(); K.append("b" if op != "STP" else "?")
        elif c < .66:
            op = r.choice(["PUSHTYP", "PUSHNNETYP"]); self.push(op, "T")
        elif c < .74 and top in "LM":
            if r.random() < .5 and top == "M":
                self.value("s")
            else:
                self.push("PUSHINT", "i", "0")
            self.value()
            self.emit("INSERT"); K.pop(); K.pop()
        elif c < .79 and len(K) > 1 and K[-1] in "is" and K[-2] in "LMs":
            op = r.choice(["SELECT", "SELECT2"]); self.emit(op); K.pop()
            if op == "SELECT": K.pop()
            K.append("?")
        elif c < .83:
            n = r.randint(0, min(2, len(K))); self.emit("POP", str(n))
            if n: del K[-n:]
        elif c < .88:
            self.call(*r.choice([("type", 1, 1, None), ("print", 1, 1, None), ("count", 1, 1, "L"), ("print", 3, 2, None), ("input", 0, 1, None)]) if False else self.pick())
        elif c < .94 and depth < 3:
            self.branch(depth)
        elif c < .97 and depth < 2:
            self.loop(depth)
        elif depth < 2:
            self.function(depth)
        else:
            self.emit("NOPE")

    def pick(self):
        n, k = self.r.choice([("type", 1), ("print", 1), ("print", 3), ("typename", 1), ("count", 1), ("istypeof", 2), ("keysof", 1)])
        kinds = [{"count": "L", "keysof": "M"}.get(n) or ("T" if n == "istypeof" and i == 1 else None) for i in range(k)]
        return n, k, self.r.choice([1, 1, 1, 2, 3]), kinds

    def any(self):
        r = self.r
        op = r.choice(OPS0 + ["POP", "PUSHINT", "ASS", "PUSHVAR", "CHECKTYPE", "CALL", "RETURN", "EXIT", "PUSHLST"])
        self.emit(op, *{"POP": [str(r.randint(0, 3))], "PUSHINT": [r.choice(INTS)], "ASS": [quoted(r.choice(NAMES))], "PUSHVAR": [quoted(r.choice(NAMES))],
                        "CHECKTYPE": [str(r.randint(0, 3)), quoted("p")], "CALL": [str(r.randint(0, 3)), str(r.randint(1, 3))], "RETURN": [str(len(self.kinds))], "PUSHLST": ["1"]}.get(op, []))

    def branch(self, depth):
        r, K = self.r, self.kinds
        a, b = self.name(), self.name()
        self.value("b")
        K.pop()
        self.emit(r.choice(["JUMPIFANDPOP", "JUMPIFNOTANDPOP"]), a)
        save = list(K)
        for _ in range(r.randint(0, 3)):
            self.step(depth + 1)
        other = list(K)
        if r.random() < .5:
            self.emit("JUMP", b)
            self.emit("NOPE", label=a)
            K[:] = save
            for _ in range(r.randint(0, 3)):
                self.step(depth + 1)
            self.emit("NOPE", label=b)
        else:
            self.emit("NOPE", label=a)
        K[:] = [x if i < len(other) and x == other[i] else "?" for i, x in enumerate(K)][:len(other)]

    def loop(self, depth):
        r, K = self.r, self.kinds
        top, v = self.name(), "i%d" % r.randint(0, 99)
        self.emit("PUSHINT", "0"); self.emit("ASS", quoted(v)); self.emit("POP", "1")
        self.emit("NOPE", label=top)
        base = len(K)
        for _ in range(r.randint(0, 3)):
            self.step(depth + 1)
        if len(K) > base and r.random() < .8:
            self.emit("POP", str(len(K) - base)); del K[base:]
        self.emit("PUSHVAR", quoted(v)); self.emit("PUSHINT", "1"); self.emit("ADD"); self.emit("ASS", quoted(v))
        self.emit("PUSHINT", str(r.choice([1, 2, 5]))); self.emit("LSS"); self.emit("JUMPIFANDPOP", top)

    def function(self, depth):
        r = self.r
        body, after = self.name(), self.name()
        argc, ret = r.randint(0, 3), r.randint(0, 2)
        self.push("PUSHFUN", "x", body, str(argc), quoted(r.choice(NAMES)))
        self.emit("JUMP", after)
        save = self.kinds
        self.kinds = ["?"] * argc
        self.emit("NOPE", label=body)
        for _ in range(r.randint(0, 4)):
            self.step(depth + 1)
        self.emit("RETURN", str(len(self.kinds)))
        self.kinds = save
        self.emit("NOPE", label=after)
        self.emit("ASS", quoted("f"))
        n = r.randint(0, 3)
        self.emit("POP", "1"); self.kinds.pop()
        for _ in range(n):
            self.value()
        self.push("PUSHVAR", "x", quoted("f"))
        self.emit("CALL", str(n), str(r.choice([1, 1, 2, 4])))
        del self.kinds[-n - 1:]
        self.kinds += ["?"] * int(self.out[-1][2][1])

    def text(self, style=None):
        r = self.r
        sp = lambda: r.choice(["", "", " ", "  ", "\n", "\t", " \n "]) if style else ""
        o = []
        for i, (l, op, args) in enumerate(self.out):
            s = ""
            if l:
                s += l + sp() + ":" + sp() + (" " if not style else "")
            s += op + (r.choice([" ", "\n", "\t ", "  "]) if style else " ") + (sp() + "," + sp()).join(args) if args else op
            o.append(s + sp() + (";" if i + 1 < len(self.out) or r.random() < .7 else "") + (sp() if style else "\n"))
        return "".join(o)


def asm_program(r, n=14, wild=.04, style=None):
    a = Asm(r, wild)
    for _ in range(r.randint(1, n)):
        a.step()
    if r.random() < .9:
        a.emit(*r.choice([("RETURN", str(len(a.kinds))), ("RETURN", str(len(a.kinds))), ("EXIT",)]))
    return a.text(style)


BADASM = ["", " ", ";", "POS", "POS;", "POS;;", ";POS", "POS POS", "POS; POS", "a:", "a: POS", "a:POS;", "a : POS", "a:b:POS", "1", "1: POS", "1:EXIT", "9x:PUSHINT 3;RETURN 1", 'PUSHSTR "q"; PUSHVAR "print"; CALL 1, 1; 1: RETURN 1', '1: PUSHSTR "q"; PUSHVAR "print"; CALL 1, 1; RETURN 1', "PUSHINT 1; 2: PUSHINT 3; RETURN 2;", "_: EXIT", "_1: EXIT", "-", "PUSHINT", "PUSHINT ;", "PUSHINT 1", "PUSHINT 1; RETURN 1", "PUSHINT +1; RETURN 1", "PUSHINT - 1; RETURN 1",
          "PUSHINT -1; RETURN 1", "PUSHINT --1; RETURN 1", "PUSHINT 1.5; RETURN 1", "PUSHINT 1.; RETURN 1", "PUSHINT .5; RETURN 1", "PUSHFLT 1; RETURN 1", "PUSHFLT 1.5; RETURN 1", "PUSHFLT -1.5; RETURN 1", "PUSHFLT 1.5.5; RETURN 1", "PUSHINT 9223372036854775807; RETURN 1", "PUSHINT 9223372036854775808; RETURN 1",
          "PUSHINT -9223372036854775807; RETURN 1", "PUSHINT 99999999999999999999999; RETURN 1", "PUSHINT 007; RETURN 1", "PUSHINT 1x; RETURN 1", "PUSHINT \"1\"; RETURN 1", "PUSHINT a; RETURN 1", "a: PUSHINT a; RETURN 1", "NOPE; a: PUSHINT a; RETURN 1", "PUSHINT b; b: RETURN 1", "PUSHINT 1, 2; RETURN 1", "PUSHINT ,1; RETURN 1", "PUSHINT 1,; RETURN 1",
          "PUSHINT 1 2; RETURN 1", "PUSHSTR 'a'; RETURN 1", "PUSHSTR \"a\"; RETURN 1", "PUSHSTR \"a; RETURN 1", "PUSHSTR \"a\\", "PUSHSTR \"a\\n", "PUSHSTR \"\\q\"; RETURN 1", "PUSHSTR \"\\'\"; RETURN 1", "PUSHSTR a; RETURN 1", "a: PUSHSTR a; RETURN 1", "PUSHSTR \"\"; RETURN 1", "PUSHSTR \"a\nb\"; RETURN 1", "PUSHSTR \"a\"\"b\"; RETURN 1", "PUSHSTR \"\\\"\"; RETURN 1", "PUSHSTR \"\\\\\"; RETURN 1",
          "PUSHSTR \"a\\\\\", RETURN 1", "pushint 1; RETURN 1", "PushInt 1; RETURN 1", "PUSHINTX 1; RETURN 1", "PUSHIN 1; RETURN 1", "RETURN", "RETURN 0", "RETURN 0;x", "EXIT;", "EXIT 1;", "JUMP 0; EXIT", "JUMP a; EXIT", "JUMP a; a: EXIT", "JUMP a; PUSHINT 1; a: EXIT", "a: JUMP b; b: EXIT", "a: NOPE; a: EXIT", "JUMP a; a: PUSHINT 1; RETURN 1; a: PUSHINT 2; RETURN 1;", "a: NOPE; JUMP b; a: PUSHINT 2; b: EXIT",
          "CALL 1; EXIT", "CALL 1, 1, 1; EXIT", "CALL \"a\", 1; EXIT", "CALL 0, 1; EXIT", "PUSHVAR \"type\"; CALL 0, 1; RETURN 1", "PUSHVAR \"type\"; CALL 0, 3; RETURN 3", "PUSHFUN a, 0, \"n\"; a: RETURN 1", "PUSHFUN a, 0; a: RETURN 1", "PUSHFUN 0, 0, \"n\"; RETURN 1", "PUSHFUN a, \"n\", 0; a: RETURN 1", "CHECKTYPE 0, \"a\"; EXIT", "CHECKTYPE \"a\", 0; EXIT",
          "# c\nEXIT", "// c", "EXIT # c", "EXIT }", "EXIT\x01", "\u00e9: EXIT", "PUSHSTR \"\u00e9\u4e2d\"; RETURN 1", "PUSHINT 1\u00e9", "PUSHINT 1; ADD; EXIT", "PUSHINT 1; PUSHINT 2; SELECT; RETURN 1", "PUSHINT 1; PUSHINT 2; INSERT; RETURN 1", "POP 1; EXIT", "POP 0; EXIT", "PUSHTYP; EXIT", "NEG", "NOT", "NLB", "STP", "EQL", "MOD", "ASS \"a\"", "INSERT2", "SELECT2", "JUMPIFANDPOP a; a: EXIT", "PUSHNNE; JUMPIFNOTANDPOP a; a: EXIT",
          "PUSHINT 1; PUSHINT 2; PUSHINT 3; RETURN 3", "PUSHINT 1; PUSHINT 2; ASS \"v\"; EXIT", "NOPE", "PUSHINT 4", "A" * 126 + ": EXIT", "A" * 128 + ": EXIT", "A" * 127, "A" * 128, "A" * 5000, "PUSHSTR \"%s\"; RETURN 1" % ("x" * 1023), "PUSHSTR \"%s\"; RETURN 1" % ("x" * 1024), "PUSHSTR \"%s\"; RETURN 1" % ("x" * 1025), "PUSHSTR \"%s\"; RETURN 1" % ("x" * 1023 + "\\n"),
          "PUSHSTR \"%s\"; RETURN 1" % ("x" * 1024 + "\\n"), "PUSHSTR \"%s\"; RETURN 1" % ("\\t" * 1024), "PUSHSTR \"%s\"; RETURN 1" % ("\\t" * 1025), "PUSHSTR \"%s\"; RETURN 1" % ("\u00e9" * 512), "PUSHSTR \"%s\"; RETURN 1" % ("\u00e9" * 513), "ASS 1; EXIT", "PUSHINT 1,2,3,4,5,6,7,8,9;", "NOPE 1,2,3,4,5,6,7,8"]


def mutate(r, t):
    for _ in range(r.choice([1, 1, 2])):
        if not t:
            break
        i = r.randrange(len(t))
        k = r.random()
        if k < .35: t = t[:i] + t[i + 1:]
        elif k < .7: t = t[:i] + r.choice(["a", "A", "1", "0", " ", "\n", ":", ";", ",", "\"", "\\", "-", "+", ".", "_", "POP", "x:", ";;", "%", "\u00e9"]) + t[i:]
        elif k < .85:
            j = r.randrange(len(t)); i, j = min(i, j), max(i, j); t = t[:i] + t[j:] if j - i < 30 else t[:i]
        else: t = t[:i] + t[i + 1:i + 2] + t[i:i + 1] + t[i + 2:]
    return t


@check("C36")
def assembly(ctx):
    r = ctx.rng
    T = list(BADASM)
    T += [asm_program(r, 16, r.choice([0, .03, .15]), r.random() < .4) for _ in range(ctx.n(420))]
    T += [mutate(r, asm_program(r, 6, .02, r.random() < .5)) for _ in range(ctx.n(260))]
    # texts that end anywhere
    whole = ['PUSHFLT 1.5; PUSHINT 20; ADD; RETURN 1;', 'a1: PUSHINT -12 ; PUSHFLT 0.25', 'PUSHSTR "q\\n"; PUSHVAR "print"; CALL 1, 1; l: JUMP e; e: EXIT;', 'PUSHFLT -20.75', 'PUSHINT 1; PUSHINT 12', 'JUMP ab; ab: PUSHFUN f, 1, "nm"; RETURN 1; f: PUSHFLT 2.0'] + [asm_program(r, 5, 0, j % 2) for j in range(ctx.n(3, 20))]
    T += sorted({t[:k] for t in whole for k in range(len(t) + 1)})
    T += ["%s %s%s" % (o, a, z) for o in ("PUSHFLT", "PUSHINT", "RETURN") for a in ("1", "1.5", "-1.5", "12.25", "0.0", "1.", ".5", "-", "-.5", "1.5.", "1.5e", "15", "1.55", "\"a\"", "\"\"") for z in ("", ";", " ", "\n", " ;", "x", ",", "# c")]
    S = [{"src": t, "asm": True, "opts": {"lang": "asm"}, "stdin": "", "max": 3000} for t in T]
    conform(ctx, S, schedules=({}, {"gc": "every:3"}) if not ctx.quick else (lambda s, e: {"gc": "every:3"} if hash(s["src"]) % 3 == 0 else {},), lines=True)
    # the listing of what the compiler makes of a program does what the program does
    P = progs(ctx, ctx.n(160), space=0)
    use = []
    pairs = spec.explore(P)
    codes = nj.run([{"src": s["src"], "stdin": "", "opts": {"lang": "compile"}} for s, _ in pairs])
    for (s, e), c in zip(pairs, codes):
        ctx.count["run"] += 1
        a = listing(r, c.get("code")) if c["st"] == "ok" and e["st"] not in ("unsup", "long") else None
        if a is None:
            ctx.count["noclaim"] += 1
        else:
            use.append(({"src": a, "stdin": "", "opts": {"lang": "asm"}, "max": s.get("max")}, e))
    compare_all(ctx, use)


def listing(r, code):
    """assembly text for compiled code, or None when it has an operand that can't be written down"""
    marks = {}
    for ins in code:
        if ins[0] in ("JUMP", "JUMPIFANDPOP", "JUMPIFNOTANDPOP", "PUSHFUN"):
            marks.setdefault(ins[1], r.choice(["L", "loop_", "x", "_"]) + str(ins[1]) if r.random() < .5 else ("again_" * (1 + ins[1] // 6))[:1 + ins[1]])
    out = []
    for i, ins in enumerate(code):
        args = []
        for j, x in enumerate(ins[1:]):
            if j == 0 and ins[1] in marks and ins[0] in ("JUMP", "JUMPIFANDPOP", "JUMPIFNOTANDPOP", "PUSHFUN"):
                args.append(marks[x])
            elif ins[0] == "PUSHFLT":
                if not isinstance(x, int): return None
                args.append("%d.%06d" % (x // 64, x % 64 * 15625))
            elif isinstance(x, str) and ins[0] != "PUSHINT":
                if len(x.encode()) > 1000 or "\0" in x: return None
                args.append(quoted(x))
            else:
                if int(x) < -2 ** 63 or int(x) >= 2 ** 63: return None
                args.append(str(x))
        out.append("%s%s %s;\n" % (marks[i] + ": " if i in marks else "", ins[0], ", ".join(args)))
    if len(code) in marks:
        return None
    return "".join(out)


# ------------------------------------------------------------------ C37
LIBTEXT = None


def libsource():
    repo = os.environ.get("NOJA_REPO", "/repo")
    return open(os.path.join(repo, "src/lib/builtins/start.noja"), encoding="utf-8", newline="").read()


def limbs(n):
    r = []
    while n:
        r.append(n % 10000); n //= 10000
    return r


def intval(n):
    if abs(n) <= 2 ** 29:
        return ["i", n]
    return ["I", n < 0, limbs(abs(n))]


def fval(f):
    """a double in the specification's notation"""
    if not (math.isfinite(f) and (f == 0 or 2.0 ** -400 <= abs(f) <= 2.0 ** 400)):
        return ["?"]
    n, d = f.as_integer_ratio()
    if abs(f) <= 2 ** 18 and 64 % d == 0:
        return ["f", n * 64 // d, f == 0 and math.copysign(1, f) < 0]
    e = 1 - d.bit_length()
    while n % 2 == 0:
        n, e = n // 2, e + 1
    return ["F", n < 0, limbs(abs(n)), e]


def incode(al, code):
    """driver notation of instructions -> the specification's"""
    out = []
    for ins in code:
        op, a = ins[0], list(ins[1:])
        if op == "PUSHINT":
            a = [intval(int(a[0]))]
        elif op == "PUSHFLT":
            a = [fval(float(a[0]) if isinstance(a[0], str) else a[0] / 64)]
            if a == [["?"]]:
                op, a = "UNSUP", []
        elif op in ("JUMP", "JUMPIFANDPOP", "JUMPIFNOTANDPOP"):
            a = [a[0] + 1]
        elif op == "PUSHFUN":
            a[0] += 1
        a = [al.to(x) if isinstance(x, str) else x for x in a]
        out.append([op, 0] + (a + [0, 0, 0])[:3])
    return out


def inval(al, v):
    k = v[0]
    if k == "i": return intval(int(v[1]))
    if k == "f": return fval(-0.0 if v[1] == "-0" else v[1] / 64)
    if k == "F": return fval(float(v[1]))
    return [al.to(x) if isinstance(x, str) and i else x for i, x in enumerate(v)]


def texts_of(x, acc):
    if isinstance(x, str): acc.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x: texts_of(y, acc)
    return acc


def trace_rows(al, jobs):
    rows = []
    for i, a, stdin in jobs:
        exes = [incode(al, c) for c in a["exes"]]
        ids, codes = {}, []
        for k, nm in enumerate(a["exn"], 1):
            if nm == "<prelude>":
                ids[k] = 1
            else:
                codes.append(exes[k - 1]); ids[k] = len(codes) + 1
        ev = [[d, ids[e], pc, nl, out, [inval(al, v) for v in ops], [[inval(al, k), inval(al, v)] for k, v in loc] if loc else []]
              for d, e, pc, nl, out, ops, loc in a["ev"]]
        end = ["done", "", ""] if a["st"] == "ok" else ["err", a.get("etype", "?"), al.to(a.get("msg", ""))] if a["st"] == "err" else ["cut", "", ""]
        rows.append({"id": i, "codes": codes, "ev": ev, "cut": a["nev"] > len(ev), "end": end, "inp": al.to(stdin), "sound": a.get("lang") != "asm"})
    return rows


def validate(traces, jobs=8, chunk=400):
    """traces: [(driver result, stdin)] of runs recorded with trace=1; what the
    specification says about each: {st, i, bad}"""
    lib = nj.run([{"src": libsource(), "stdin": "", "opts": {"lang": "compile"}}])[0]
    if lib["st"] != "ok":
        raise spec.SpecError("the library does not compile: %s" % lib)
    jobs = max(1, min(jobs, (len(traces) + 7) // 8))
    part = [[] for _ in range(jobs)]
    load = [0] * jobs
    for i in sorted(range(len(traces)), key=lambda i: -len(traces[i][0]["ev"])):
        j = load.index(min(load)); part[j].append(i); load[j] += 300 + len(traces[i][0]["ev"])
    res = {}

    def one(j):
        acc = texts_of(lib["code"], [])
        for i in part[j]:
            a, sin = traces[i]
            texts_of([a["exes"], a["ev"], sin, a.get("msg", ""), a.get("out", "")], acc)
        al = spec.Alphabet(acc)
        doc = {"chars": al.chars, "lib": incode(al, lib["code"]), "chunk": chunk, "scns": trace_rows(al, [(i,) + tuple(traces[i]) for i in part[j]])}
        fi = os.path.join(nj.workdir(), "trc%d_%d.json" % (os.getpid(), j))
        json.dump(doc, open(fi, "w", encoding="utf-8"), ensure_ascii=False)
        out, ok = spec.tlc("NojaTrace", None, {"IN": fi, "OUT": fi + ".out"}, tag="t%d" % j)
        rows = spec.read_out(fi + ".out")
        if not ok or len(rows) != len(part[j]):
            raise spec.SpecError("TLC failed on %d/%d traces:\n%s" % (len(rows), len(part[j]), spec.explain(out)))
        os.unlink(fi)
        for r in rows:
            res[r["id"]] = al.back_all(r)
    with spec.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, range(jobs)))
    return [res[i] for i in range(len(traces))]


def corrupt(r, a):
    """a copy of a recorded run with one small change in one state"""
    a = json.loads(json.dumps(a))
    ev = a["ev"]
    i = r.randrange(min(len(ev), 40))
    e = ev[i]
    k = r.choice(["pc", "depth", "out", "locals", "operand", "drop", "twice", "value"])
    if k == "pc": e[2] += r.choice([1, -1])
    elif k == "depth": e[0] += 1
    elif k == "out": e[4] += 1
    elif k == "locals": e[3] += 1
    elif k == "drop" and 0 < i < len(ev) - 1: del ev[i]
    elif k == "twice": ev.insert(i, json.loads(json.dumps(e)))
    elif k == "value" and any(x[5] for x in ev[:60]):
        e = r.choice([x for x in ev[:60] if x[5]])
        e[5][-1] = ["s", "?!"]
    else: e[5].append(["n"])
    return a


TRACED = [
    "print(stringFromNumeric(<n>), '\\n');", "x = [1, 2, 3]; print(stringFromList(x)); return stringFromInteger(<n>);", "return stringFromMap({a: <n>, b: [<n>]}, false);",
    "it = makeGenericIterator([1, <n>]); return it;", "fun f(n) { if n < 2: return n; return f(n - 1) + f(n - 2); } return f(7), <n>;",
    "i = 0; while i < 3: { j = 0; while true: { j = j + 1; if j > <n>: break; if j > 4: break; } i = i + 1; print(i, j); } return i;",
    "do { x = <n>; if x == 2: break; x = 3; } while false; return x;", "a, b, c = (fun(x) return x, x + 1)(<n>); return c, b, a;",
    "fun g(a: int, b: String = 'q', c=<n>) { a = a + 1; b = b; return a, b, c; } return g(1), g(2, 'z', 3), g(1, 2);",
    "m = {a: 1}; m.b = [<n>]; m['c'] = m.b[0]; m.b[1] = m; return m.b[1].a, keysof(m), m.b[<n>];", "return <n> / 0, 1;", "return [1, 2][<n>];", "x.y = <n>;",
    "fun o(v) { self = {v: v}; fun self.get(s) return s.v; return self; } return o(<n>)->get();", "error('e' + <n>);", "assert(<n> == 2, 'no');",
    "s = 'h\u00e9'; return s[<n>], count(s), string.cat(s, 'x'), string.ord(s);", "b = buffer.new(4); b[<n>] = 7; return buffer.toString(buffer.sliceUp(b, 0, 2)), b[<n>];",
    "?x = 1; return <n> or true;", "fun d(a: ?int | String) return a; d(none); d('x'); d(<n>); d(1.5);", "return (2 * 3 - 4 % 3 / <n>), not true, -(<n>), 1.5 + <n>;",
    "return istypeof(int, <n>), typename(1.5), type(type(<n>)), input();",
    "fun h(a: ?int = none, b: any = <n>, c: None = none, d = none, e: int | String = 's') return a, b, c, d, e; h(); h(1); x, y = h(none, none); return x, y, h(<n>, 2);",
    "fun h(a = none, b: ?(int | List) = none, c: ?int = none) { fun in(d: ?List = none, e = a) return d, e, b; return in; } return h(<n>)(), h()([<n>]), h(1, <n>)(none, none);",
]


SHAPEDECL = "x = 1; y = [1, 2]; b = true; f = print; o = {a: 1, 0: 2, fun m(s, q) return q; fun f2(s) return 1, 2, 3;}; fun two() return 1, 'z'; T = ?int;\n"


def shape(r, d=3, e=True, fn=0, loop=0):
    """a random composition of the forms of expressions (or statements) of the language"""
    x = lambda: shape(r, d - 1, True, fn, loop)
    s = lambda l=loop: shape(r, d - 1, False, fn, l)
    if e:
        if d <= 0 or r.random() < .25:
            return r.choice(["none", "1", "1.5", "'s'", "true", "x", "y", "b", "o", "T", "int", "[]", "{}", "?int", "two()", "o.a", "y[0]", "false"])
        return r.choice([lambda: "[%s]" % ", ".join(x() for _ in range(r.randint(0, 4))), lambda: "{%s}" % ", ".join("%s: %s" % (r.choice(["a", "k", "1", "'s t'", "none"]), x()) for _ in range(r.randint(0, 3))),
                         lambda: "two()", lambda: "f(%s)" % ", ".join(x() for _ in range(r.randint(0, 3))), lambda: "o->m(%s)" % x(), lambda: "o->f2()", lambda: "o.a", lambda: "y[%s]" % x(), lambda: "(%s)[%s]" % (x(), x()),
                         lambda: "(x = %s)" % x(), lambda: "(x = y = %s)" % x(), lambda: "(o.a = %s)" % x(), lambda: "(y[%s] = %s)" % (x(), x()), lambda: "(x, y = two())", lambda: "(x, y, b = o->f2(%s))" % x(),
                         lambda: "(-%s)" % x(), lambda: "(not %s)" % x(), lambda: "?(%s)" % x(), lambda: "(%s %s %s)" % (x(), r.choice(["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "and", "or", "|"]), x()),
                         lambda: "(%s and %s or %s)" % (x(), x(), x()), lambda: "(%s or %s or %s)" % (x(), x(), x()), lambda: "(%s and %s and %s)" % (x(), x(), x())])()

    def params():
        return ", ".join(n + r.choice(["", ": %s" % x(), ": ?int", ": T"]) + r.choice(["", " = %s" % x(), " = none", " = 1"]) for n in r.sample("pqrstuv", r.randint(0, 4)))
    blk = lambda l=loop: "{ %s }" % " ".join(s(l) for _ in range(r.randint(0, 3)))
    any_ = lambda l=loop: blk(l) if r.random() < .5 else s(l)
    if d <= 0 or r.random() < .2:
        return r.choice(["x = %s;" % x(), "%s;" % x(), "return %s;" % x() if fn else "f();", "break;" if loop else "x = 2;", "{}", "return %s, %s;" % (x(), x()) if fn else "two();"])
    return r.choice([lambda: "%s;" % x(), lambda: "x = %s;" % x(), lambda: "x, y = f(%s);" % x(), lambda: "x, y, b = o->m(%s);" % x(), lambda: "o.a = %s;" % x(),
                     lambda: "if %s: %s" % (x(), any_()), lambda: "if %s: %s else %s" % (x(), blk(), any_()), lambda: "while %s: %s" % (x(), any_(1)), lambda: "do %s while %s;" % (any_(1), x()),
                     lambda: "while %s: { %s if %s: break; %s }" % (x(), s(1), x(), s(1)), lambda: "fun g(%s) %s" % (params(), shape(r, d - 1, False, 1, 0)), lambda: "fun g(%s) { %s return %s; }" % (params(), shape(r, d - 1, False, 1, 0), ", ".join(x() for _ in range(r.randint(1, 4)))),
                     lambda: "h = { fun w(%s) { %s } k: %s };" % (params(), shape(r, d - 1, False, 1, 0), x()), lambda: blk(), lambda: "return %s;" % ", ".join(x() for _ in range(r.randint(1, 3)))])()


def record(r, scns):
    """run with a trace: [(result, stdin, scenario)]"""
    res = execute([{"src": s["src"], "stdin": s.get("stdin", ""), "opts": dict(s.get("opts", {}), trace=1)} for s in scns], "asan")
    out = []
    for s, a in zip(scns, res):
        a["lang"] = s.get("opts", {}).get("lang", "noja")
        out.append((a, s.get("stdin", ""), s))
    return out


def explain_reject(a, v):
    b = v["bad"]
    if b and b[0] == "code":
        return "compiled code: %s" % b[1]
    i = v["i"]
    at = "state %d: machine has %s, the run had %s" % (i, json.dumps(b[1:])[:400], json.dumps(a["ev"][i - 1])[:400] if 0 < i <= len(a["ev"]) else (a["st"], a.get("etype"), a.get("msg")))
    return "%s; %s" % (b[0], at)


@check("C37")
def steps(ctx):
    r = ctx.rng
    P = []
    for t in TRACED:
        for n in (some(r, ["0", "1", "2", "'s'", "-3", "2.5", "none"], 2) if ctx.quick else ["0", "1", "2", "'s'", "-3", "2.5", "none", "true"]):
            P.append({"src": t.replace("<n>", n), "stdin": "line\n"})
    P += progs(ctx, ctx.n(150, 1500), maxst=9)
    P += [{"src": asm_program(r, 12, r.choice([0, .02])), "opts": {"lang": "asm"}} for _ in range(ctx.n(60, 500))]
    lib = nj.run([{"src": libsource(), "stdin": "", "opts": {"lang": "compile"}}])[0]
    v = validate([({"exes": [lib["code"]], "exn": ["library"], "ev": [], "st": "ok", "nev": 0}, "")])[0]
    if v["bad"]:
        ctx.violation("the library: %s" % explain_reject({"ev": []}, v), {"src": "start.noja", "verdict": v})
    # the code of every composition of forms is sound
    srcs = [SHAPEDECL + " ".join(shape(r, r.randint(2, 4), False) for _ in range(r.randint(1, 3))) for _ in range(ctx.n(900, 9000))]
    st = ["1;", "two();", "x = 2;", "x, y = two();", "{}", "{ 1; 2; }", "if b: 1;", "if b: 1; else 2;", "while b: 1;", "while b: { break; }", "do 1; while b;", "fun g() 1;", "o.a = 1;", "return 1, 2;", "if b: while b: x; else two();"]
    two = ["if b: %s else %s", "%s %s", "while b: { %s %s }", "do { %s %s } while b;", "fun w() { %s %s }", "{ %s %s }"]
    srcs += [SHAPEDECL + f % (p, q) + " x = 1;" for f in (two[:1] + (some(r, two[1:], 1) if ctx.quick else two[1:])) for p in st for q in st]
    cs = nj.run([{"src": t, "stdin": "", "opts": {"lang": "compile"}} for t in srcs])
    ok = [(t, c) for t, c in zip(srcs, cs) if c["st"] == "ok"]
    ctx.count["noclaim"] += len(srcs) - len(ok)
    for (t, c), v in zip(ok, validate([({"exes": [c["code"]], "exn": ["program"], "ev": [], "st": "ok", "nev": 0}, "") for _, c in ok])):
        ctx.count["compared"] += 1; ctx.distinct.add(hash(t)); ctx.kinds["code of shapes"] += 1
        if v["bad"]:
            ctx.violation("%s\n%s" % (explain_reject({"ev": []}, v), t), {"src": t, "verdict": v})
    P += [{"src": t, "stdin": "line\n"} for t in r.sample(srcs, ctx.n(120, 1000))]
    S = []
    for s in P:
        g = r.choice([{}, {}, {"gc": "every:3"}, {"gc": "rnd:%d:4" % r.randint(1, 99)}])
        S.append(dict(s, opts=dict(s.get("opts", {}), maxev=600 if ctx.quick else 2000, max=5000, **(dict(g, heap=1 << 20) if g else {}))))
    for c in range(0, len(S), 800):
        rec = record(r, S[c:c + 800])
        use = []
        for a, sin, s in rec:
            ctx.count["run"] += 1
            if a["st"] in ("ok", "err", "max") and a.get("ev"):
                use.append((a, sin, s))
            elif a["st"] not in ("ok", "err", "cerr", "max"):
                ctx.violation("%s\n%s" % (common.judge({"st": "done", "rets": [], "outs": [], "out": "", "cat": "", "msg": "", "tr": []}, a), s["src"]), {"src": s["src"], "opts": s["opts"], "observed": a.get("st")})
            else:
                ctx.count["noclaim"] += 1
        bad = [(corrupt(r, a), sin, s) for a, sin, s in r.sample(use, min(len(use), 24)) if len(a["ev"]) > 3]
        got = validate([(a, sin) for a, sin, _ in use + bad])
        for (a, sin, s), v in zip(use, got):
            ctx.extra["states_validated"] = ctx.extra.get("states_validated", 0) + v["i"]
            if v["bad"]:
                w = record(r, [s])[0]
                v2 = validate([w[:2]])[0]
                if v2["bad"]:
                    ctx.violation("%s\n%s" % (explain_reject(w[0], v2), s["src"][:1200]), {"src": s["src"], "stdin": sin, "opts": s["opts"], "verdict": v2})
                continue
            ctx.kinds[v["st"]] += 1
            if v["st"] == "unsup" and v["i"] < 2:
                ctx.count["noclaim"] += 1
            else:
                ctx.count["compared"] += 1; ctx.distinct.add(hash(s["src"]))
        rej = [bool(v["bad"]) for v in got[len(use):] if v["st"] != "unsup"]
        ctx.extra["corrupted_traces_rejected"] = "%d of %d" % (sum(rej), len(rej))
        if not ctx.violations and rej and not all(rej):
            k = [x for x, v in zip(bad, got[len(use):]) if not v["bad"] and v["st"] != "unsup"][0]
            raise spec.SpecError("the specification accepts a corrupted trace of %s" % k[2]["src"])
        if use:
            ctx.sample({"src": use[0][2]["src"][:300], "first states": use[0][0]["ev"][:4]})


# ------------------------------------------------------------------ C38
def dot(text):
    """GraphViz text -> tree (label, children), or a complaint"""
    lab, kids, par = {}, {}, {}
    body = re.fullmatch(r"digraph G \{\n(.*)\}\n", text, re.S)
    if not body:
        return "not a digraph"
    pat = re.compile(r'\s*(?:(\w+) \[label="((?:[^"\\]|\\.)*)"\];|(\w+) -> (\w+);)', re.S)
    t, at = body.group(1).rstrip(), 0
    while at < len(t):
        m = pat.match(t, at)
        if not m:
            return "can't be read at %r" % t[at:at + 60]
        if m.group(1):
            lab[m.group(1)] = re.sub(r"\\(.)", lambda x: {"n": "\n", "t": "\t"}.get(x.group(1), x.group(1)), m.group(2), flags=re.S)
        else:
            a, b = m.group(3), m.group(4)
            if b in par: return "%s has two parents" % b
            par[b] = a
            kids.setdefault(a, []).append(b)
        at = m.end()
    for n in list(par) + list(kids):
        if n not in lab: return "%s has no label" % n
    roots = [n for n in lab if n not in par]
    if len(roots) != 1: return "%d roots" % len(roots)
    return (lab, kids, roots[0])


def differs(exp, g, n):
    lab, kids, _ = g
    k, text = exp[0][0], lab[n]
    if k == "?":
        return None
    big = lambda v: v[1] if v[0] == "i" else (-1 if v[1] else 1) * sum(x * 10000 ** i for i, x in enumerate(v[2]))
    want = str(big(exp[0][1])) if k == "v" else "%g" % spec.fltnum(exp[0][1]) if k == "f" else exp[0][1]
    if text != want:
        return "a node is labelled %r instead of %r" % (text, want)
    ks = kids.get(n, [])
    if len(ks) != len(exp[2]):
        return "node %r has %d children instead of %d" % (want, len(ks), len(exp[2]))
    for e, x in zip(exp[2][:exp[1]], ks):
        w = differs(e, g, x)
        if w: return w
    todo = list(ks)[exp[1]:]
    for e in exp[2][exp[1]:]:
        hit = [x for x in todo if differs(e, g, x) is None]
        if not hit: return "node %r lacks a child like %s" % (want, json.dumps(e)[:200])
        todo.remove(hit[0])
    return None


def trees(srcs, jobs=8):
    res = {}
    jobs = max(1, min(jobs, (len(srcs) + 39) // 40))

    def one(j):
        part = [i for i in range(j, len(srcs), jobs)]
        al = spec.Alphabet([srcs[i] for i in part])
        fi = os.path.join(nj.workdir(), "dia%d_%d.json" % (os.getpid(), j))
        json.dump({"chars": al.chars, "scns": [{"id": i, "src": al.to(srcs[i])} for i in part]}, open(fi, "w", encoding="utf-8"), ensure_ascii=False)
        out, ok = spec.tlc("NojaDiagram", None, {"IN": fi, "OUT": fi + ".out"}, tag="d%d" % j)
        rows = spec.read_out(fi + ".out")
        os.unlink(fi)
        if not ok or len(rows) != len(part):
            raise spec.SpecError("TLC failed on %d/%d diagrams:\n%s" % (len(rows), len(part), spec.explain(out)))
        for r in rows:
            res[r["id"]] = al.back_all(r["res"])
    with spec.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, range(jobs)))
    return [res[i] for i in range(len(srcs))]


SHAPES = ["", ";", "{}", "{{};}", "1;", "x = 1 <o> 2 <o> 3;", "x <o> y = 2;", "-x <o> not y;", "?int <o> String;", "a, b = f(1, 2), 3;", "return 1;", "return 1, 2, 3;", "return (1, 2), (3, 4);", "(a, b), c = f();", "a = b = c;", "return (a = 1), 2;",
          "return " + ", ".join(map(str, range(33))) + ";", "return " + ", ".join(map(str, range(70))) + ";", ", ".join("v%d" % i for i in range(40)) + " = f();",
          "f();", "f()(1)(2, 3);", "f(g(1), h(2, 3), [4]);", "o->m();", "o->m(1)->n(2);", "o.a.b[1].c;", "o->m;", "x[1, 2];", "x[[1], {}];", "x['a'].b = 2;",
          "if a: b;", "if a: b; else c;", "if a: {} else if b: {} else {}", "if a: if b: c; else d;", "while a: b;", "while a: {b; break; c;}", "do a; while b;", "do { a; break; } while b;",
          "fun f() {}", "fun f() return 1;", "fun f(a) return a;", "fun f(a, b: int, c: ?int = none, d = 2) { return a, b; }", "fun f(a) { fun g(b) return b; return g; }", "m = {a: 1, 'b c': 2, 3: [4], fun g(x) return x; fun h() {} k: {}};",
          "'<s>';", "\"<s>\";", "9223372036854775807;", "4294967296;", "2147483648;", "-1;", "1.5;", "0.015625;", "1234.5;", "99999.984375;", "12345.75;", "0.0;", "1.0;", "none; true; false;", "x = {};", "x = [];", "x = [[], [[]], {a: {b: []}}];", "# c\n x; # d",
          "1, 2;", "x = (1, 2);", "f((1, 2));", "1 +;", "x = ;", "fun (a) {}", "}", "{", "'a", "a b;", "if a b;", "return;", "99999999999999999999;", "break", "'\\q';"]


@check("C38")
def diagrams(ctx):
    r = ctx.rng
    T = []
    for s in SHAPES:
        for o in ("+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "and", "or", "|", "=", ",") if "<o>" in s else ("",):
            for x in ("", "a", "a b", "\u00e9\u4e2d", "q\\\"q", "q\\'", "a\\\\b", "\\\\", "\\n", "a\\tb\\n\\n", "%s%d", "line\nbreak", "\ttab", "->;", "x" * 300) if "<s>" in s else ("",):
                T.append(s.replace("<o>", o).replace("<s>", x))
    # constructs with many parts
    for n in [r.randint(5, 8), r.randint(9, 16), r.randint(17, 33), r.randint(34, 70), r.randint(71, 140), 25, 65]:
        j = lambda t, sep=", ": sep.join(t.replace("#", str(i)) for i in range(n))
        T += ["f(%s);" % j("a#"), "[%s];" % j("#"), "{%s};" % j("k#: #"), "{%s};" % j("'k#': #"), "fun f(%s) {}" % j("p#"), "fun f(%s) {}" % j("p#: int = #"), "fun f(a) {%s}" % j("x#;", ""), "{%s}" % j("x#;", " "), j("x = #;", "\n"),
              "'%s';" % j("a\\n", ""), "'%s';" % j("\\\\\"", ""), "n%s;" % j("#", ""), "o->m(%s);" % j("#"), "x = 1%s;" % j(" + #", ""), "if a: {%s} else {%s}" % (j("b;", ""), j("c#;", "")), "return %s;" % j("r#"), "T = %s;" % j("t#", " | "),
              "while a: {%s}" % j("b#;", "")]
    T += [s["src"] for s in progs(ctx, ctx.n(300))]
    for _ in range(ctx.n(300)):
        g = gen.Gen(r, depth=6)
        T.append("x = %s;\nreturn %s, %s;" % (g.e("any"), g.e("int"), g.e("bool")))
    base = [s["src"] for s in progs(ctx, ctx.n(120), maxst=4)]
    T += [mutate(r, s) for s in base]
    T = [t for t in T if "\0" not in t]
    want = trees(T)
    got = nj.run([{"src": t, "stdin": "", "opts": {"lang": "diagram"}} for t in T], "asan")
    for t, e, a in zip(T, want, got):
        ctx.count["run"] += 1; ctx.count["compared"] += 1; ctx.distinct.add(hash(t))
        if a["st"] not in ("ok", "cerr"):
            w = "drawing the diagram ended with %s %s" % (a["st"], str(a.get("log", ""))[:600])
        elif e[0] != "ok":
            w = None if a["st"] == "cerr" and (e[0] == "any" or a.get("etype") == "Syntax") else "expected a syntax error, got %s %s" % (a["st"], a.get("etype"))
        elif a["st"] != "ok":
            w = "expected a diagram, got %s error: %s" % (a.get("etype"), a.get("msg"))
        else:
            g = dot(a["out"])
            w = g if isinstance(g, str) else differs(e[1], g, g[2])
        ctx.kinds["diagram" if e[0] == "ok" else "refused"] += 1
        if w:
            ctx.violation("%s\n%s" % (w, t[:800]), {"src": t, "expected": e if e[0] != "ok" else json.dumps(e[1])[:3000], "observed": a.get("out", a.get("msg"))})
            if len(ctx.violations) > 3: return
    deep = [(k, n, {"src": x, "stdin": "", "opts": {"lang": "diagram"}}) for n in ((20000,) if ctx.quick else (7000, 9000, 20000, 70000, 300000)) for k, x in abyss(n).items()]
    for (k, n, s), a in zip(deep, nj.run([s for _, _, s in deep], "rel")):
        ctx.count["run"] += 1; ctx.count["compared"] += 1
        if a["st"] not in ("ok", "cerr"):
            ctx.violation("drawing a text nested %d levels deep (%s) ended with %s %s" % (n, k, a["st"], str(a.get("log", ""))[:300]), {"kind": k, "levels": n})
    ctx.sample({"src": T[40], "expected": want[40]})
