"""Random Noja programs.  They are inputs only: what they must do is decided by
the specification."""
import re

STR = ["", "a", "b", "ab", "hello", "x y", " pad ", "\u00e9", "\u4e2d\u6587", "\U0001F600", "a\u00e9z", "0", "12", "A", "\u20ac5", "key"]
KEYS = ["a", "b", "c", "k", "name", "x"]
WORDS = ["v", "w", "total", "acc", "item", "tmp", "res", "data", "foo", "q1"]


def q(s, rng=None):
    d = '"' if rng and rng.random() < .3 else "'"
    s = s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")
    return d + s.replace(d, "\\" + d) + d


class Gen:
    def __init__(self, rng, err=0.0, closures=0.4, depth=3, loops=0.5, big=0.05, types=0.3, prints=0.4, maxst=10):
        self.r = rng
        self.err, self.closures, self.dep, self.loops, self.big = err, closures, depth, loops, big
        self.types, self.prints, self.maxst = types, prints, maxst
        self.n = 0
        self.scopes = [{}]
        self.infun = 0
        self.inloop = 0
        self.nesting = 0

    # ---- names
    def fresh(self, base=None):
        self.n += 1
        return "%s%d" % (base or self.r.choice(WORDS), self.n)

    def vars(self, t):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for k, v in s.items():
                if k not in seen:
                    seen.add(k)
                    if v == t or t == "any":
                        out.append(k)
        return out

    def typ(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]

    def locals(self, t=None):
        return [k for k, v in self.scopes[-1].items() if t is None or v == t]

    def ch(self, *opts):
        """weighted choice over (weight, thunk)"""
        tot = sum(w for w, _ in opts)
        x = self.r.random() * tot
        for w, f in opts:
            x -= w
            if x <= 0:
                return f()
        return opts[-1][1]()

    # ---- expressions
    def e(self, t, d=None):
        d = self.dep if d is None else d
        r = self.r
        if self.err and r.random() < self.err:
            return self.bad(d)
        vs = self.vars(t)
        if vs and r.random() < .35:
            return r.choice(vs)
        if t == "any":
            t = r.choice(["int", "int", "str", "bool", "list", "map", "flt", "none", "type"])
        fs = [(f, v) for s in self.scopes for f, v in s.items() if isinstance(v, tuple) and v[0] == "fun" and v[2][:1] == (t,)]
        if fs and d > 0 and r.random() < .25 and self.nesting < 8:
            f, v = r.choice(fs)
            return self.call(f, v, d - 1)
        return getattr(self, "e_" + t)(d)

    def lit(self):
        r = self.r
        if r.random() < self.big:
            return str(r.choice([2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**62, 10**18, 2**63 - 1, 65536]))
        return str(r.choice([0, 1, 2, 3, 5, 7, 10, 42, 100, 255, 1000, r.randint(0, 99)]))

    def e_int(self, d):
        r = self.r
        if d <= 0 or r.random() < .25:
            return self.lit()
        return self.ch(
            (5, lambda: "(%s %s %s)" % (self.e("int", d - 1), r.choice("+-"), self.e("int", d - 1))),
            (2, lambda: "(%s * %s) %% %d" % (self.e("int", d - 1), self.e("int", d - 1), r.choice([7, 13, 1009])) if False else
                "((%s * %s) %% %d)" % (self.e("int", d - 1), self.e("int", d - 1), r.choice([7, 13, 1009]))),
            (1, lambda: "(%s / %d)" % (self.e("int", d - 1), r.choice([1, 2, 3, 7, 10]))),
            (1, lambda: "(%s %% %d)" % (self.e("int", d - 1), r.choice([2, 3, 7, 10]))),
            (1, lambda: "(-%s)" % self.e("int", d - 1)),
            (1, lambda: "count(%s)" % self.e(r.choice(["str", "list", "map", "ilist"]), d - 1)),
            (1, lambda: "%s(%s, %s)" % (r.choice(["min", "max"]), self.e("int", d - 1), self.e("int", d - 1))),
            (.5, lambda: "abs(%s)" % self.e("int", d - 1)),
            (.5, lambda: "string.ord(%s)" % q(r.choice([s for s in STR if s]))),
            (1, lambda: "%s[%d]" % (self.ilist_lit(max(1, r.randint(1, 4)), d), 0)))

    def ilist_lit(self, n, d):
        return "[" + ", ".join(self.e("int", 0 if n > 2 else d - 1) for _ in range(n)) + "]"

    def e_ilist(self, d):
        return self.ilist_lit(self.r.randint(0, 5), d)

    def e_bool(self, d):
        r = self.r
        if d <= 0:
            return r.choice(["true", "false"])
        return self.ch(
            (1, lambda: r.choice(["true", "false"])),
            (4, lambda: "(%s %s %s)" % (self.e("int", d - 1), r.choice(["<", ">", "<=", ">=", "==", "!="]), self.e("int", d - 1))),
            (2, lambda: "(%s %s %s)" % (self.e("bool", d - 1), r.choice(["and", "or"]), self.e("bool", d - 1))),
            (1, lambda: "(not %s)" % self.e("bool", d - 1)),
            (1, lambda: "(%s %s %s)" % (self.e("str", d - 1), r.choice(["==", "!="]), self.e("str", d - 1))),
            (1, lambda: "(%s %s %s)" % (self.e("any", d - 1), r.choice(["==", "!="]), r.choice(["none", "1", "'a'", "true", "int"]))),
            (1, lambda: "istypeof(%s, %s)" % (self.e_type(d - 1), self.e("any", d - 1))),
            (1, lambda: "(type(%s) == %s)" % (self.e("any", d - 1), r.choice(["int", "String", "List", "Map", "bool"]))))

    def e_str(self, d):
        r = self.r
        if d <= 0 or r.random() < .4:
            return q(r.choice(STR), r)
        return self.ch(
            (3, lambda: "string.cat(%s)" % ", ".join(self.e("str", d - 1) for _ in range(r.randint(1, 3)))),
            (2, lambda: "toString(%s)" % self.e(r.choice(["int", "str", "ilist"]), d - 1)),
            (1, lambda: "string.trim(%s)" % self.e("str", d - 1)),
            (1, lambda: "typename(%s)" % self.e("any", d - 1)),
            (1, lambda: "string.chr(%d)" % r.choice([65, 97, 233, 0x20AC, 0x1F600])),
            (1, lambda: "%s[%d]" % (q(r.choice([s for s in STR if s])), 0)))

    def e_flt(self, d):
        r = self.r
        lit = r.choice(["0.0", "1.0", "0.5", "2.25", "10.125", "3.75", "100.0", "0.015625"])
        if d <= 0 or r.random() < .4:
            return lit
        return self.ch(
            (2, lambda: "(%s %s %s)" % (self.e("flt", d - 1), r.choice("+-"), self.e(r.choice(["flt", "int"]), 0))),
            (1, lambda: "(%s * %s)" % (lit, r.choice(["2", "0.5", "4.0"]))),
            (1, lambda: "(%s / %s)" % (lit, r.choice(["2", "0.5", "4.0"]))),
            (1, lambda: "(-%s)" % self.e("flt", d - 1)))

    def e_none(self, d):
        return "none"

    def e_type(self, d):
        r = self.r
        base = r.choice(["int", "bool", "float", "String", "List", "Map", "None", "Type", "any", "Numeric", "Callable"])
        if d <= 0 or r.random() < .5:
            return base
        return self.ch(
            (2, lambda: "?%s" % base),
            (2, lambda: "(%s | %s)" % (self.e_type(d - 1), self.e_type(d - 1))),
            (1, lambda: "[%s]" % ", ".join(self.e_type(d - 1) for _ in range(r.randint(0, 2)))),
            (1, lambda: "{%s}" % ", ".join("%s: %s" % (k, self.e_type(d - 1)) for k in r.sample(KEYS, r.randint(0, 2)))))

    def e_list(self, d):
        n = self.r.choice([0, 1, 2, 3, 4, 4, 6, 9]) if d > 0 else self.r.randint(0, 2)
        return "[" + ", ".join(self.e("any", 0 if n > 3 else d - 1) for _ in range(n)) + "]"

    def e_map(self, d):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 9]) if d > 0 else r.randint(0, 2)
        out = []
        for _ in range(n):
            k = self.ch((4, lambda: r.choice(KEYS)), (2, lambda: q(r.choice(STR))), (2, lambda: self.lit()),
                        (1, lambda: r.choice(["true", "none", "1.5", "'a b'"])))
            out.append("%s: %s" % (k, self.e("any", d - 2)))
        return "{" + ", ".join(out) + "}"

    def e_fun(self, d):
        return self.r.choice(["print", "count", "toString"])

    def e_buf(self, d):
        return "buffer.fromString(%s)" % self.e("str", d - 1)

    def bad(self, d):
        """an operation that fails, or may"""
        r = self.r
        return self.ch(
            (2, lambda: "(%s / 0)" % self.e("int", 0)),
            (2, lambda: "(%s + %s)" % (self.e("any", 0), self.e("any", 0))),
            (1, lambda: "(%s %% %s)" % (self.e("int", 0), r.choice(["0", "'x'", "2.5"]))),
            (1, lambda: "(not %s)" % self.e("any", 0)),
            (1, lambda: "(-%s)" % self.e("any", 0)),
            (1, lambda: "nosuch%d" % r.randint(0, 9)),
            (1, lambda: "(%s)(%s)" % (self.e("any", 0), self.e("any", 0))),
            (1, lambda: "(%s < %s)" % (self.e("any", 0), self.e("any", 0))),
            (1, lambda: "(%s == %s)" % (self.e("list", 0), self.e("list", 0))),
            (1, lambda: "count(%s)" % self.e("any", 0)),
            (1, lambda: "(%s and %s)" % (self.e("any", 0), self.e("any", 0))),
            (1, lambda: "%s[%s]" % (self.e("any", 0), self.e("any", 0))),
            (1, lambda: "error(%s)" % self.e(r.choice(["str", "any"]), 0)),
            (1, lambda: "assert(true, %s)" % r.choice(["false", "1", "true"])))

    def call(self, f, v, d):
        _, params, rets = v
        r = self.r
        args = [self.e(t, d) for t in params]
        if r.random() < .15 and args:
            args.pop()
        elif r.random() < .1 and len(args) < 4:
            args.append(self.e("any", 0))
        return "%s(%s)" % (f, ", ".join(args))

    # ---- statements
    def block(self, n, ind):
        return "".join(self.st(ind) for _ in range(n))

    def pr(self, ind):
        return "%sprint(%s, '\\n');\n" % (ind, ", ' ', ".join(self.e("any", 1) for _ in range(self.r.randint(1, 3))))

    def assign(self, ind):
        r = self.r
        t = r.choice(["int", "int", "int", "str", "bool", "list", "ilist", "map", "flt", "buf" if r.random() < .3 else "int"])
        ls = self.locals(t)
        x = self.e(t)
        if ls and r.random() < .5:
            name = r.choice(ls)
        else:
            name = self.fresh()
            self.scopes[-1][name] = t
        return "%s%s = %s;\n" % (ind, name, x)

    def update(self, ind):
        r = self.r
        t = r.choice(["list", "map", "ilist"])
        vs = self.vars(t)
        if not vs:
            return self.assign(ind)
        v = r.choice(vs)
        if t == "map":
            k = r.choice([".%s" % r.choice(KEYS), "[%s]" % q(r.choice(STR)), "[%s]" % self.e("int", 0), "[%s]" % self.e("any", 0) if r.random() < .1 else ".%s" % r.choice(KEYS)])
            return "%s%s%s = %s;\n" % (ind, v, k, self.e("any", 1))
        x = self.e("int" if t == "ilist" else "any", 1)
        k = r.random()
        if k < .45:
            return "%s%s[count(%s)] = %s;\n" % (ind, v, v, x)
        if k < .6:
            return "%sappend(%s, %s);\n" % (ind, v, x)
        if k < .9:
            return "%sif count(%s) > %d: %s[%d] = %s;\n" % (ind, v, 1, v, r.randint(0, 1), x)
        return "%s%s[%d] = %s;\n" % (ind, v, r.randint(0, 3), x)

    def while_(self, ind):
        r = self.r
        i = self.fresh("i")
        k = r.randint(1, 5)
        out = "%s%s = 0;\n" % (ind, i)
        self.scopes[-1][i] = "int"
        self.inloop += 1
        self.nesting += 2
        keep = dict(self.scopes[-1])
        body = "%s\t%s = %s + 1;\n" % (ind, i, i) + self.block(r.randint(1, 3), ind + "\t")
        if r.random() < .3:
            body += "%s\tif %s: break;\n" % (ind, self.e("bool", 1))
        self.inloop -= 1
        self.nesting -= 2
        self.scopes[-1] = keep
        if r.random() < .6:
            return out + "%swhile %s < %d: {\n%s%s}\n" % (ind, i, k, body, ind)
        return out + "%sdo {\n%s%s} while %s < %d;\n" % (ind, body, ind, i, k)

    def if_(self, ind):
        r = self.r
        out = "%sif %s: {\n%s%s}\n" % (ind, self.e("bool", 2), self.sub(ind), ind)
        if r.random() < .5:
            out += "%selse {\n%s%s}\n" % (ind, self.sub(ind), ind)
        return out

    def sub(self, ind):
        self.nesting += 1
        keep = dict(self.scopes[-1])
        s = self.block(self.r.randint(1, 2), ind + "\t")
        self.scopes[-1] = keep
        self.nesting -= 1
        return s

    def fun(self, ind):
        r = self.r
        f = self.fresh("f")
        np = r.randint(0, 3)
        ptypes = [r.choice(["int", "int", "str", "bool", "list", "any"]) for _ in range(np)]
        rets = tuple(r.choice(["int", "int", "str", "bool", "list"]) for _ in range(r.choice([1, 1, 1, 2, 3])))
        names = [self.fresh("p") for _ in range(np)]
        ps = []
        for nme, t in zip(names, ptypes):
            s = nme
            if r.random() < self.types:
                s += ": " + {"int": r.choice(["int", "int", "Numeric", "?int"]), "str": "String", "bool": "bool", "list": "List", "any": "any"}[t]
            if r.random() < .25:
                s += "=" + self.e(t, 0)
            ps.append(s)
        self.scopes.append({n: t for n, t in zip(names, ptypes) if t != "any"})
        il, self.inloop = self.inloop, 0
        self.infun += 1
        self.nesting += 3
        body = self.block(r.randint(0, 3), ind + "\t")
        body += "%s\treturn %s;\n" % (ind, ", ".join(self.e(t, 1) for t in rets))
        self.nesting -= 3
        self.infun -= 1
        self.inloop = il
        self.scopes.pop()
        self.scopes[-1][f] = ("fun", tuple(ptypes), rets)
        return "%sfun %s(%s) {\n%s%s}\n" % (ind, f, ", ".join(ps), body, ind)

    def destr(self, ind):
        r = self.r
        fs = [(f, v) for s in self.scopes for f, v in s.items() if isinstance(v, tuple)]
        if not fs:
            return self.assign(ind)
        f, v = r.choice(fs)
        k = r.randint(1, 3)
        names = []
        x = self.call(f, v, 1)
        for i in range(k):
            t = v[2][i] if i < len(v[2]) else "none"
            n = self.fresh()
            names.append((n, t))
        for n, t in names:
            self.scopes[-1][n] = t
        return "%s%s = %s;\n" % (ind, ", ".join(n for n, _ in names), x)

    def counter(self, ind):
        """closure with shared mutable state"""
        c = self.fresh("mk")
        a, b = self.fresh(), self.fresh()
        out = ("%sfun %s(s) {\n%s\tbox = [s];\n%s\tfun bump(k=1) { box[0] = box[0] + k; return box[0]; }\n"
               "%s\treturn bump, box;\n%s}\n%s%s, %s = %s(%s);\n") % (ind, c, ind, ind, ind, ind, ind, a, b, c, self.e("int", 0))
        self.scopes[-1][a] = ("fun", ("int",), ("int",))
        self.scopes[-1][b] = "ilist"
        return out

    def st(self, ind=""):
        r = self.r
        deep = self.nesting >= 4
        return self.ch(
            (5, lambda: self.assign(ind)),
            (3, lambda: self.update(ind)),
            (4 * self.prints, lambda: self.pr(ind)),
            (0 if deep else 2, lambda: self.if_(ind)),
            (0 if deep else 3 * self.loops, lambda: self.while_(ind)),
            (0 if deep else 3 * self.closures, lambda: self.fun(ind)),
            (1.5, lambda: self.destr(ind)),
            (0 if deep else .8 * self.closures, lambda: self.counter(ind)),
            (.3, lambda: "%s%s;\n" % (ind, self.e("int", 1).replace("-", "", 1) if False else "(%s)" % self.e("any", 1))))

    def program(self, n=None):
        s = self.block(n or self.r.randint(3, self.maxst), "")
        vs = [k for k, v in self.scopes[0].items() if not isinstance(v, tuple)]
        self.r.shuffle(vs)
        vs = vs[:12]
        ret = vs[:5] + (["[%s]" % ", ".join(vs[5:])] if len(vs) > 5 else [])
        return s + ("return %s;\n" % ", ".join(ret) if ret else "")


def program(rng, **kw):
    return Gen(rng, **kw).program()


# ---------------------------------------------------------------- re-spacing
TOK = re.compile(r"""\s+|\#[^\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\d+\.\d+|\w+|==|!=|<=|>=|->|.""", re.S)


def tokens(src):
    return [t for t in TOK.findall(src) if t.strip() and not t.startswith("#")]


def respace(src, rng, nl=.15):
    out, prev = [], ""
    for t in tokens(src):
        need = prev and (prev[-1].isalnum() or prev[-1] == "_") and (t[0].isalnum() or t[0] == "_")
        two = prev and prev + t in ("==", "!=", "<=", ">=", "->") or (prev[-1:] in "<>=!-" and t[:1] in "=>")
        dot = (prev[-1:].isdigit() and t == ".") or (prev == "." and t[:1].isdigit())
        x = rng.random()
        if x < nl:
            sp = rng.choice(["\n", "\n\n", " # note\n", "\r\n", "\n\t", "\f\n", "\n\v", "\r"])
        elif x < .5 or need or two or dot:
            sp = rng.choice([" ", " ", "  ", "\t", "\t", "\f", "\v ", "\r"])
        else:
            sp = ""
        out.append(sp + t)
        prev = t
    return "".join(out)
