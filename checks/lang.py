"""The core language: expressions, grammar, control flow, scopes, calls, types,
assignment, errors, stack traces, limits."""
import itertools, re
from lib import gen, nj
from lib.common import conform
from . import check
from .util import tpl, some, progs, abyss, DECL, VALUES, GCS

BIN = ["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "and", "or", "|"]
UN = ["+", "-", "not ", "?"]


@check("C01")
def operators(ctx):
    r = ctx.rng
    S = []
    # every operator on every pair of kinds of values (sampled in the quick tier)
    for a in VALUES:
        for op in (some(r, BIN, 6) if ctx.quick else BIN):
            S.append(tpl(DECL + "x = <a>; print('t'); return x %s <b>;" % op, a=[a],
                         b=some(r, VALUES, 8) if ctx.quick else VALUES))
    S.append(tpl(DECL + "return <u><v>;", u=UN, v=VALUES))
    # literals and other forms of expression as direct operands
    forms = ["none", "true", "false", "1", "1.5", "'a'", "[]", "{}", "F(1)", "M.a", "L[0]", "(1 < 2)", "not true", "-1", "?int", "int", "q", "F"]
    S.append(tpl(DECL + "q = true; return <a> <op> <b>;", a=["true", "false", "q", "1 < 2"], op=["and", "or", "|"], b=forms))
    S.append(tpl(DECL + "q = true; return <a> <op> <b>;", a=forms, op=["and", "or"], b=["true", "q"]))
    S.append(tpl(DECL + "q = true; return <a> <op> <b>;", a=some(r, forms, 8 if ctx.quick else 99), op=[o for o in BIN if o not in ("and", "or")] if not ctx.quick else some(r, BIN[:11], 5), b=some(r, forms, 9 if ctx.quick else 99)))
    S.append(tpl(DECL + "q = true; if <a>: print('y'); else print('n'); while <a~>: break; do print('d'); while not <a~> and q and false; return (not <a~>);", a=forms))
    S.append(tpl("return <u><u>(<v>);", u=["-", "+", "not "], v=["3", "2.5", "true", "0.0"]))
    # numeric operators on a grid of ints and floats, both literal and computed
    nums = ["0", "1", "-1", "2", "7", "-7", "100", "255", "1000003", "0.0", "-0.0", "0.5", "1.5", "-2.25", "3.0", "1024.0", "65536.5"]
    S.append(tpl("a = <n>; b = <n>; return [a <op> b, type(a <op> b)];", n=nums if not ctx.quick else some(r, nums, 9),
                 op=["+", "-", "*", "<", "<=", "==", "!=", ">", ">="] if not ctx.quick else some(r, ["+", "-", "*", "<", "<=", "==", "!=", ">", ">="], 3)))
    S.append(tpl("a = <n>; b = <n>; return a <op> b;", n=nums if not ctx.quick else some(r, nums, 9), op=["/", "%"]))
    # integers and floats too close to each other for less than double precision
    near = ["16777215", "16777216", "16777217", "16777216.0", "16777216.5", "16777217.0", "33554433", "33554432.5", "2147483647", "2147483648", "2147483647.5", "2147483648.0", "4294967295", "4294967297", "4294967296.5",
            "4294967296.0", "1000000007", "1000000006.5", "9007199254740991", "9007199254740992", "9007199254740992.0", "4503599627370496.5", "4503599627370497", "4611686018427387904", "4611686018427387904.0", "9223372036854775807", "9223372036854775807.0", "0.1", "3"]
    for a in near:
        S.append(tpl("a = %s; b = <b>; return [(a < b), (a <= b), (a > b), (a >= b), (a == b), (a != b)], [(b < a), (b >= a), (-a < b)], [(a + b), (a - b), (b - a), (a * 3.0)];" % a, b=near if not ctx.quick else some(r, near, 9)))
    # every operator on integers of every magnitude
    bound = [ilit(n) for n in BOUND]
    for op in ["+", "-", "*", "/", "%"]:
        S.append(tpl("a = <a>; b = <b>; return [a %s b, b %s a];" % (op, op), a=some(r, bound, 12 if ctx.quick else 60), b=some(r, bound, 6 if ctx.quick else 30)))
    S.append(tpl("a = <a>; b = <b>; return [(a % b), (a / b) * b + a % b == a];", a=[ilit(n) for n in (2 ** 63 - 1, -2 ** 63 + 1, 2 ** 62 + 12345678901, 10 ** 18 + 1)],
                 b=[ilit(n) for n in (2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 62 - 1, 10 ** 17 + 3, -2 ** 40 - 7)]))
    # the right operand of and/or is not evaluated when the left one decides
    S.append(tpl("fun t(x, r) { print(x); return r; } return (t('a', <v>) <op> t('b', <v>) <op> t('c', <v>)), (not t('d', <v>));",
                 v=["true", "false", "1"], op=["and", "or"]))
    S.append(tpl("fun t(x) { print(x, ' '); return x; } return t(<n>) <op> t(<n>) <op> t(<n>);", n=["1", "2", "7"],
                 op=["+", "-", "*", "/", "%", "<", "=="] if not ctx.quick else ["+", "-", "<", "=="]))
    # operands keep their values while the other one changes things
    S.append(tpl("x = [1]; fun f() { x[0] = x[0] * 2; return x[0]; } return (x[0] <op> f() <op> x[0] <op> f()), x;",
                 op=["+", "-", "*"]))
    S += [{"src": "a = %s; return %s;" % (r.randint(0, 9), gen.Gen(r, depth=5, big=.02).e(r.choice(["int", "bool", "flt", "any"])))}
          for _ in range(ctx.n(250))]
    conform(ctx, S)


BOUND = sorted({s * (1 << k) + d for k in (0, 1, 7, 15, 16, 29, 30, 31, 32, 33, 46, 52, 53, 61, 62) for s in (1, -1) for d in (-1, 0, 1)}
               | {2**63 - 1, 2**63 - 2, -2**63 + 1, -2**63, 10**18, 10**9, -10**9, 3037000499, 3037000500, 9999, 10000, 4294967296 * 3 + 5,
                  99999999, 100000000, 12345678901234})


def ilit(n):
    return "(-9223372036854775807 - 1)" if n == -2**63 else str(n) if n >= 0 else "(-%d)" % -n


@check("C02")
def integers(ctx):
    r = ctx.rng
    ops = ["+", "-", "*", "/", "%"]
    S = []
    k = 14 if ctx.quick else 48
    S.append(tpl("return <a> <op> <b>;", a=[ilit(n) for n in some(r, BOUND, k)], b=[ilit(n) for n in some(r, BOUND, k)], op=ops))
    S.append(tpl("a = <a>; b = <b>; return (a < b), (a > b), (a <= b), (a >= b), (a == b), (a != b), -a;",
                 a=[ilit(n) for n in some(r, BOUND, 2 * k)], b=[ilit(n) for n in some(r, BOUND, k)]))
    # neighbours: numbers that differ by little, computed or written
    S.append(tpl("a = <a>; b = a <d>; return (a < b), (a > b), (a <= b), (a >= b), (a == b), (a != b), (b - a), ({1: a}[1] == b);".replace("{1: a}[1]", "[a][0]"),
                 a=[ilit(n) for n in some(r, [n for n in BOUND if abs(n) < 2**63 - 3], 40 if ctx.quick else 200)], d=["+ 0", "+ 1", "- 1", "+ 2", "- 2"]))
    S.append(tpl("print(<a>, ' ', -<a~>, ' ', +<a~>); return <a~>;", a=[ilit(n) for n in BOUND]))
    S.append(tpl("a = <a>; m = {}; m[a] = 'x'; l = [a, [a]]; fun f(x) return x; return m[a], l, (f(a) == a), count(m), keysof(m);",
                 a=[ilit(n) for n in some(r, BOUND, 3 * k)]))
    # random mixtures
    for _ in range(ctx.n(300)):
        n = [ilit(r.choice([r.choice(BOUND), r.getrandbits(r.randint(1, 62)), -r.getrandbits(r.randint(1, 62))])) for _ in range(5)]
        o = [r.choice(ops) for _ in range(4)]
        S.append({"src": "a = %s; b = %s; c = (a %s b); d = c %s %s; print(d, '\\n'); e = (d %s %s) %s %s; return a, b, c, d, e;"
                  % (n[0], n[1], o[0], o[1], n[2], o[2], n[3], o[3], n[4])})
    # numbers written with any count of digits, and of leading zeros
    S.append(tpl("return <n>, -<n~>;", n=["0" * z + d for z in range(24) for d in ("0", "7", "9223372036854775807", "4611686018427387904", "1000000000")] + [str(10 ** k // 9) for k in range(1, 20)] + [str(10 ** k) for k in range(19)]))
    # accumulations and factorials, gcds, powers by repeated squaring
    S.append(tpl("n = <n>; f = 1; i = 1; while i <= n: { f = f * i; i = i + 1; } return f;", n=list(map(str, range(0, 21)))))
    S.append(tpl("b = <b>; r = 1; i = 0; while i < <n>: { r = (r * b) % 1000000007; i = i + 1; } return r;", b=["2", "3", "65537", "123456789"], n=["1", "7", "30", "61"]))
    S.append(tpl("a = <a>; b = <b>; while b != 0: { t = a % b; a = b; b = t; } return a;",
                 a=["1071", "9223372036854775807", "6148914691236517205", "4294967296"], b=["462", "4611686018427387904", "3074457345618258602", "1"]))
    conform(ctx, S)


ATOMS = ["1", "a", "'s'", "2.5", "none", "true", "f", "(a)", "[1]", "{}", "f(1)", "m.k", "m['k']", "l[0]", "m->f(1)", "{k: 1}", "[]", "-1", "not b", "?int"]
EOPS = ["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "and", "or", "|"]
HEAD = "a = 5; b = true; l = [7, 8]; fun f(x, y) return x; m = {k: 3, f: f};\n"


@check("C03")
def grammar(ctx):
    r = ctx.rng
    S = []
    # precedence and associativity: operator chains without parentheses
    for _ in range(ctx.n(120, 2000)):
        n = r.randint(2, 5)
        ops = [r.choice(["+", "-", "*", "/", "%"]) for _ in range(n)]
        xs = [r.choice(["1", "2", "3", "7", "10", "a", "-4", "+2", "- 3", "f(2)", "l[1]", "m.k"]) for _ in range(n + 1)]
        c = xs[0] + "".join(" %s %s" % z for z in zip(ops, xs[1:]))
        if r.random() < .5:
            c = c + r.choice([" < ", " == ", " != ", " >= "]) + "%s %s %s" % (r.choice("123"), r.choice("+-*"), r.choice("4567"))
            if r.random() < .5:
                c = r.choice(["not ", ""]) + c + r.choice([" and ", " or "]) + r.choice(["not b", "b", "1 < 2", "a == 5 and false", "false or 2 != 2", "b == not b"])
                if r.random() < .5:
                    c += r.choice([" and ", " or "]) + r.choice(["not b", "b", "a > 1"])
        S.append({"src": HEAD + "return %s;" % c})
    S.append(tpl(HEAD + "return <x> <op> <y> <op> <z>;", x=["1", "-a", "b"], op=EOPS, y=["2", "not b", "3 "], z=["2", "true"] if not ctx.quick else ["2"]))
    S.append(tpl(HEAD + "x = y = <u> <op> 2; p, q = 1 <op> 2, 3; return x, y, p, q;", u=["1", "-2", "3 * 2", "a"], op=["+", "*", "<", "-"]))
    # postfix chains
    S.append(tpl("fun g() return {k: [g, 'z'], f: fun1}; fun fun1(s, x) return [x, s]; m = {k: [1, {q: [2]}], f: fun1, n: {f: fun1}}; l = [fun1, [m]];\n"
                 "return <x><y><y>;", x=["m", "l", "g()", "'abc'", "[1, [2, 3]]", "{k: [4]}"],
                 y=[".k", "['k']", "[0]", "[1]", "()", "(5)", "->f(6)", ".f", ".n", ""] if not ctx.quick else [".k", "[0]", "[1]", "(5)", "->f(6)", ".n", ""]))
    # prefix operators over postfix chains, in every place where an expression may stand
    PRE = ["", "-", "+", "not ", "?"]
    prim = ["m", "l", "int", "f", "T", "(m)", "[int, a]", "{k: 2}", "'s'", "4", "b", "fun f(z) return z"]
    post = ["", ".k", "[0]", "(int)", ".t", "->f(3)", "[0].k", "(a)(b)", ".n[1]"]
    H2 = HEAD + "T = {t: int, n: [a, float], f: f}; \n"
    S.append(tpl(H2 + "x = none; return <u><v><x><y>;", u=PRE, v=PRE, x=some(r, prim, 5) if ctx.quick else prim, y=some(r, post, 5) if ctx.quick else post))
    S.append(tpl(H2 + "x = none; " + "return istypeof(<u><x><y>, <v><x~><y~>);", u=["?", "? ?", "-", ""], v=["", "-", "?"], x=["T", "l", "f", "m"], y=[".t", "[0]", "(int)", ".n[1]", "->f(3)", "['t']"] if not ctx.quick else some(r, [".t", "[0]", "(int)", ".n[1]", "->f(3)", "['t']"], 4)))
    places = ["fun g(p: <e>) return p; return g(none);", "fun g(p = <e>) return p; return g();", "return [1, <e>];", "return {q: <e>};", "return f(<e>, 2);", "x = <e>; return x;", "a, x = <e>, 2; return a;", "return 1, <e>;", "m.z = <e>; return m.z;",
              "if <e>: print(1); return 3;", "return l[<e>];", "return <e> | String;", "return String | <e>;", "return <e> + 1;", "return 2 * <e>;", "return <e> == <e>;", "<e>; return 1;", "a = x = <e>; return a;", "do a = 2; while <e>; return a;"]
    for p in places:
        for _ in range(ctx.n(4, 40)):
            e = r.choice(PRE) + r.choice(PRE) + r.choice(prim) + r.choice(post) + r.choice(["", "", r.choice(post)])
            S.append({"src": H2 + "x = none; " + p.replace("<e>", e), "opts": {"max": 20000}})
    # chains of assignments with every kind of target and with commas at every place
    S.append(tpl(H2 + "fun two() return 8, 9; fun three() return 6, 7, 5; p = 0; q = 0; x = 0; y = 0; <s> = <t> = <e>; return p, q, x, y, l, m;",
                 s=["p", "p, q", "x", "l[0]", "m.k, p", "p, l[1]", "p | q", "p + 1"], t=["x, y", "y", "x", "l[1], q", "y, l[0], x", "q or x"], e=["two()", "three()", "1", "1, 2", "x = two()", "x, q = two()", "f(1) + 2"]))
    # statements: every small combination of statement forms
    simple = ["x = 1;", "f(1);", "if b: x = 2;", "if b: x = 1; else x = 2;", "{ x = 3; }", "{}", "while false: x = 1;", "do x = 4; while false;",
              "fun g() return 1;", "fun g() { return 2; }", "return x;", "x, y = 1, 2;", ";", "break;", "return;", "if b: { } else if b: x = 6; else { x = 7; }",
              "while b: { break; }", "do { break; } while b;", "fun g(p: int = 3, q = 4, r: String) return p; x = g();", "x = { a: 1, fun w() return 2; b: 3 };", "x = fun1;"]
    S.append(tpl(HEAD + "x = 0; y = 0;\n<s>\n<s>\nreturn x, y;", s=simple if not ctx.quick else some(r, simple, 13)))
    bodies = ["if <c>: <s> else <s>", "while <c>: { <s> break; }", "do { <s> } while <c>;", "if <c>: if <c>: <s> else <s>", "fun g(p) { <s> return p; } x = g(1);"]
    for b in bodies:
        S.append(tpl(HEAD + "x = 0; y = 0;\n" + b + "\nreturn x, y;", c=["b", "not b", "false"], s=some(r, simple, 8)))
    # parameter lists, argument lists, literals: with and without their separators
    S.append(tpl(HEAD + "fun g<p> return 1; return g<a>;",
                 p=["()", "(p)", "(p,)", "(p, q)", "(p q)", "(p: int)", "(p = 1)", "(p: int = 1)", "(p = 1: int)", "(1)", "(p:)", "(p=)", "(,)", "(p: int, q: ?int = none)", "(p", "p", "(p: int | String)", "(p, p)"],
                 a=["()", "(1)", "(1,)", "(1, 2)", "(,)", "(1 2)", "(1", ")", "(1; 2)"]))
    S.append(tpl(HEAD + "return <o><x><s><x><c>;", o=["[", "{"], x=["1", "k: 1", "1: 2", "fun q() return 1;", "'s': a", "", "[2]", "k: k", "none: 2"], s=[",", "", ";", ", ,"], c=["]", "}"]))
    items = ["k: 1", "k(): 1", "k.x: 1", "k[0]: 1", "(k): 1", "-k: 1", "'s': 1", "k + 1: 2", "k == 1: 2", "not k: 1", "m->f(): 1", "?int: 1", "f(1, 2): 3", "(f)(3): 4", "f: f", "k: 1 + 2", "k: (1, 2)", "k: x = 5", "[1][0]: 2", "{a: 1}.a: 2", "fun z() return 1;",
             "none: 1", "true: k", "1.5: 2", "'a'[0]: 1", "m.k + 1: 2", "k:", ": 1", "k 1", "k = 1", "if: 1", "k, j: 1", "k: 1, 2", "1 < 2: 3", "a and b: 4", "fun: 1", "a | b: 1", "m.k: f(m.k)", "k->: 1"]
    S.append(tpl("k = 'kk'; " + HEAD + "return {<i>};", i=items))
    S.append(tpl("k = 'kk'; " + HEAD + "return {<i>, <i>};", i=items if not ctx.quick else some(r, items, 14)))
    S.append(tpl("k = 'kk'; " + HEAD + "return {<i> <i>,};", i=some(r, items, 8)))
    S.append(tpl(HEAD + "return {<i><s> <i><s> <i><s>};", i=["a: 1", "fun g() return 1;", "fun g() {}"], s=["", ","]))
    if not ctx.quick:
        S.append(tpl(HEAD + "return {<i><s> <i><s> <i><s> <i><s>};", i=["a: 1", "fun g() return 1;", "'s': []"], s=["", ",", ";"]))
    S.append(tpl(HEAD + "return <o><i><s> <i><s> <i><c>;", o=["[", "f(", "{k: 1, "], i=["2", "b: 3"], s=["", ",", ";", ",,"], c=["]", ")", "}", ",]", ",)", ",}"]))
    for n in list(range(5, 13)):
        its = [r.choice(["a%d: %d" % (j, j), "fun g%d() return %d;" % (j, j)]) for j in range(n)]
        for _ in range(ctx.n(3, 20)):
            w = [("," if not x.startswith("fun") else "") for x in its]
            if r.random() < .7:
                j = r.randrange(n)
                w[j] = "" if w[j] else ","
            S.append({"src": HEAD + "return {%s};" % " ".join(x + y for x, y in zip(its, w))})
    els = ["1", "k", "k()", "a = 1", "a, 2", "(1, 2)", "1 + 2", "f(1)", "[1]", "{}", "fun g() return 1", "fun g() return 1;", "", "k: 1", "-1", "not b", "?int", "m.k", "l[0]", "1 == 1", "a and b", "return", "'s' 's'"]
    S.append(tpl(HEAD + "k = 3; return [<e>, <e>];", e=els if not ctx.quick else some(r, els, 13)))
    S.append(tpl(HEAD + "k = 3; x = <e>; return f(<e>, <e~>);", e=els if not ctx.quick else some(r, els, 13)))
    S.append(tpl(HEAD + "k = 3; if <e>: x = 1; while <e>: break; return l[<e~>];", e=els if not ctx.quick else some(r, els, 13)))
    S.append(tpl(HEAD + "k = 3; return <e>; ", e=els))
    S.append(tpl(HEAD + "k = 3; <t> = <e>; return l, m, a;", t=["a", "l[0]", "m.z", "m['z']", "(a)", "a, k", "(a, k)", "a, l[1]", "l", "f(1)", "m.f(1)", "1", "-a", "a = k", "l[0][1]", "{}", "[a]", "m->f", "a + 1", "none", "'s'", "(l[0])", "a, (k, b)", "not b"], e=["1", "[5]", "f(2)", "2, 3", "(2, 3)", "k = 9"]))
    # one-token edits of valid programs
    extra = ["(", ")", "[", "]", "{", "}", ",", ";", ":", ".", "=", "==", "+", "-", "*", "->", "|", "?", "if", "else", "while", "do", "break", "return", "fun", "and", "not", "or", "none", "true", "x", "1", "1.5", "'s'", "!=", "<"]
    for _ in range(ctx.n(350, 6000)):
        t = gen.tokens(gen.Gen(r, maxst=4, depth=2).program(r.randint(1, 3)))
        if not t:
            continue
        i = r.randrange(len(t))
        k = r.random()
        if k < .3: t = t[:i] + t[i + 1:]
        elif k < .6: t = t[:i] + [r.choice(extra)] + t[i:]
        elif k < .85: t = t[:i] + [r.choice(extra)] + t[i + 1:]
        elif k < .95: t = t[:i] + [t[i]] + t[i:]
        else: t = t[:i]
        S.append({"src": " ".join(t)})
    S += progs(ctx, ctx.n(80, 1500))
    conform(ctx, S, msg=True, chunk=4000)


def longlits(r, n):
    """programs with string literals about as long as the compiler's buffer for one"""
    out = []
    for k in list(range(4080, 4112)) + [2047, 2048, 2049, 5000, 8191, 8192, 8193]:
        for e in ("", "\\n", "\\'", "\u00e9", "\\\\"):
            m = len(e.encode()) if e[:1] != "\\" else 1
            out += ["s = '%s%s'; return count(s), (s == '');" % (e, "a" * (k - m)), "s = '%s%s'; return count(s), (s == '');" % ("a" * (k - m), e), "s = '%s%s%s'; print(s); return 1;" % ("b" * (k // 2 - m), e, "a" * (k - k // 2))]
    return some(r, out, n)


KW = ["if", "else", "while", "do", "break", "return", "fun", "and", "or", "not", "none", "true", "false"]


@check("C04")
def lexical(ctx):
    r = ctx.rng
    S = []
    # keywords against identifiers that resemble them
    S.append(tpl("<k> = 1; return <k~>;", k=KW + [k + "x" for k in KW] + ["x" + k for k in KW] + [k.upper() for k in KW] + ["_" + k for k in KW] + [k + "_1" for k in KW]
                 + ["_", "__", "a1", "a_b", "A9z", "x" * 63, "x" * 64, "x" * 65, "y" * 300, "1a", "\u00e9", "a\u00e9", "a-b", "a.b", "a$", "@", "^", "~", "&", "!", "\\"]))
    # number literals
    S.append(tpl("return <n>;", n=["0", "00", "007", "10", "1.0", "0.5", "00.5", "1.", ".5", "1.2.3", "1..2", "1e5", "0x10", "1_000", "1a", "9223372036854775807", "9223372036854775808",
                                   "18446744073709551616", "99999999999999999999", "123456789012345678", "0" * 40 + "7", "0.25", "100.125", "3.75", "12.015625", "- 1", "1 .5", "1. 5", "2147483648.0", "0.0", "1.50", "1.500", "4.0625"]))
    S.append(tpl("return <n>;", n=["0" * z + d for z in range(1, 30) for d in ("1", "25.5", "1234567890123456789", "9223372036854775808")] + ["0." + "0" * z + "5" for z in range(14)] + [str(10 ** k) + e for k in range(16) for e in ("", ".0", ".25")]))
    # string literals: quotes, escapes, all printable characters
    S.append(tpl("s = <q><a><b><q~>; return s, count(s);", q=["'", '"'],
                 a=["", "\\n", "\\t", "\\r", "\\\\", "\\'", '\\"', "\\a", "\\0", "\\x41", "\\ ", "'", '"', "#", "\n", "\u00e9", "\U0001F600", "a", "//", "\\\n"],
                 b=["", "b", "\\n", "\\\\", "\\'", "\\\"", "\\q"] if ctx.quick else ["", "b", "\\n", "\\\\", "\\'", "\\\"", "\\q", "'", '"', "\\"]))
    S.append(tpl("return '<c>a<c~>', count(\"<c~>\");", c=[chr(c) for c in range(32, 127)] + ["\t", "\n", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff"]))
    # the null character: harmless in a comment, refused anywhere else, in scripts held in memory and in files
    for p in ["# <z> x<n>return 5;", "x = 1; # <z><z><n>y = 2; # a<z>b<n>return x + y;", "return 1; <z>", "<z>", "x = 1;<z>return x;", "return <z> 1;", "x<z>y = 3; return 1;",
              "x = 'a<z>b'; return 1;", "return count('<z>');", "x = '<z>", "x = 1; # <z>", "return 'a'; # '<z>'", "x = 'a'; #<z><n># <z><n> return x;", "fun f() return 2; # <z><n>return f();"]:
        p = p.replace("<z>", "\0").replace("<n>", "\n")
        S.append({"src": p})
        S.append({"src": "x = import('p.noja'); return x;", "fs": {"files": {"p.noja": p}, "cwd": "", "main": None}})
    for n in (0, 1, 2, 7, 8, 15, 16, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025):
        for ch in ("a", "\u00e9", "\\n"):
            S.append({"src": "s = '%s'; print(s); return count(s), s;" % (ch * n)})
    S += [{"src": x} for x in longlits(r, 40 if ctx.quick else 140)]
    # whitespace and comments between any two tokens; adjacency of operators
    S.append(tpl("a<w>=<w>1<w>;<w>b<w>=<w>a+<w>2;return<x>b;", w=["", " ", "\n", "\t", "#c\n", "\r\n", " #x y 'z\n\t"] if not ctx.quick else ["", "\n", "#c'\n"], x=[" ", "\n", "#\n"]))
    S.append(tpl("a = 6; b = 2; c = true; f = none; m = {a: 1, b: 2}; x = a<o><p>b; return x, a;",
                 o=["+", "-", "*", "/", "%", "=", "==", "!=", "<", ">", "<=", ">=", "!", "|", "->", ".", "?", ":", "&", "and", " and ", " or "],
                 p=["", "-", "+", "=", ">", "not ", "?", "<", "|", " ", "!", "- ", " -", "#\n"]))
    S.append(tpl("<c>", c=["", " ", "\n", "#", "# only", "#\n", ";", "1", "1;", "1;#", "1;#\n", "\t\r\n", "return 1;# no newline", "'", "\"", "'a", "\\", "/*x*/", "// x", "-- 1;", "\ufeff1;", "\u00a0", "\x01", "x\x7f", "return '\x01\x02\x7f';"]))
    # character edits of programs
    chars = list("(){}[];:,.'\"#\\ \n\tabc0189_+-*/%=<>!|?&@$^~`") + ["\u00e9", "\U0001F600", "\x01"]
    for _ in range(ctx.n(450, 8000)):
        p = list(gen.Gen(r, maxst=3, depth=2).program(r.randint(1, 2)))
        for _ in range(r.randint(1, 2)):
            i = r.randrange(len(p) + 1)
            k = r.random()
            if k < .4: p[i:i + 1] = []
            elif k < .8: p[i:i] = [r.choice(chars)]
            else: p[i:i + 1] = [r.choice(chars)]
        S.append({"src": "".join(p)})
    ends = [chr(c) for c in range(1, 128) if c != 10] + ["", "\u0080", "\u00a0", "\u00e9", "\u2028", "\\n", "x;"]
    S.append(tpl("x<e>=<e~>1;<e~>return<e~> x;", e=[chr(c) for c in range(1, 128)] + ["\u0085", "\u00a0", "\u2028", "\u3000", "\ufeff"]))
    S.append(tpl("x = 1; # a<e>x = 9;\ny = 2; # <e~><e~>x = 8;\nreturn x, y; # <e~>", e=ends))
    S.append(tpl("x = 1;<e>#\nreturn x;#<e>", e=["", " ", "\t", "\n", "\r\n", "#", "##", ";", "#;", "'", "#'"]))
    # the same program under any layout
    for _ in range(ctx.n(60, 1000)):
        p = gen.Gen(r, maxst=6).program()
        for _ in range(2):
            S.append({"src": gen.respace(p, r, nl=r.choice([.05, .3, .8]))})
    conform(ctx, S, chunk=4000)


@check("C05")
def control(ctx):
    r = ctx.rng
    S = []
    P = "fun t(s, v) { print(s); return v; }\n"
    # if / else chains, dangling else, non boolean conditions
    c = ["t('c', true)", "t('d', false)"]
    S.append(tpl(P + "if <c>: print(1); return 0;", c=c + ["1", "none", "'a'", "[]", "0", "0.0"]))
    S.append(tpl(P + "if <c>: <a> else <a> print('|');", c=c, a=["print(1);", "{ print(2); print(3); }", "{}", "if t('e', true): print(4);", "if t('e', false): print(5); else print(6);"]))
    S.append(tpl(P + "if <c>: if <c>: print(1); else print(2); print(3);", c=c))
    S.append(tpl(P + "if <c>: print(1); else if <c>: print(2); else if <c>: print(3); else print(4); return 'end';", c=c))
    # loops: condition evaluated before (while) or after (do) each pass; break leaves the innermost loop only
    S.append(tpl("i = 0; while i < <n>: { i = i + 1; if i == <k>: break; print(i); } print('end'); return i;", n=list("01235"), k=list("0123")))
    S.append(tpl("i = 0; do { i = i + 1; if i == <k>: break; print(i); } while i < <n>; print('end'); return i;", n=list("01235"), k=list("0123")))
    S.append(tpl("i = 0; <w> i < 3: { j = 0; i = i + 1; <w> j < 3: { j = j + 1; <x> print(i, j, ' '); <y> } <z> print('.'); } return i, j;".replace("<w>", "while"),
                 x=["", "if j == 2: break;", "if i == 2: break;", "if i == 2: { if j == 2: { break; } }"], y=["", "if j == i: break;", "break;"], z=["", "if i == 2: break;", "if j == 1: break;"]))
    S.append(tpl("i = 0; do { j = 0; i = i + 1; do { j = j + 1; <x> print(i, j, ' '); } while j < <n>; <z> print('.'); } while i < <n>; return i, j;",
                 x=["", "if j == 2: break;", "if i == 2: break;", "break;"], z=["", "if i == 2: break;", "break;"], n=list("123")))
    S.append(tpl("i = 0; while true: { i = i + 1; if i > <n>: { print('out'); break; } else { if i == 2: print('two'); } } return i;", n=list("013")))
    S.append(tpl("i = 0; <w>; return i;", w=["while i < 5: i = i + 1", "do i = i + 1; while i < 5", "while false: i = 9", "while i: i = 1", "do i = 7; while none", "while i < 3: if i == 1: break; else i = i + 1"]))
    # loops whose body is a single statement of any kind, inside loops of any kind
    one = ["if i + j > <n>: break;", "break;", "{ if i == <n>: break; }", "if j == <n>: { break; } else print('e');", "while true: break;", "do break; while true;", "print('o');", "if i == 1: while true: break; else break;",
           "{}", "j = j + 1;", "do if j >= <n>: break; while false;", "fun q() return 1;", "{ { if j == 1: break; } print('t'); }"]
    for b in one:
        for inner in ("while j < 3 and t(j): %s", "do %s while j < 3 and t(j);"):
            for outer in (("while i < 3: { j = 0; %s print('after'); i = i + 1; }", "do { j = 0; i = i + 1; %s print('after'); } while i < 3;") if not ctx.quick or r.random() < .6 else ("while i < 3: { j = 0; %s print('after'); i = i + 1; }",)):
                S.append(tpl("i = 0; j = 0; k = 0; s = {j: 0}; fun t(v) { print(v); k = s.j; s.j = s.j + 1; return k < 7; }\n" + outer % (inner % b) + " print('end'); return i, j, s;", n=["0", "1", "2"]))
    # return out of nested loops inside a function, with and without braces
    S.append(tpl("fun f(n) { i = 0; while true: { j = 0; do { if i * 10 + j == n: return i, j; j = j + 1; } while j < 4; i = i + 1; if i == 4: break; } return 'no'; } a, b = f(<n>); return a, b;",
                 n=["0", "3", "4", "12", "21", "33", "34", "99"]))
    S.append(tpl("fun f(x) { if x: return 1; else return 2; } fun g(x) { if x: return none; print('n'); } return f(<c>), g(<c>), f(not <c>);", c=["true", "false"]))
    S.append(tpl("<s> print('after'); return 3;", s=["return 1;", "return;", "if true: return 2;", "if false: return 2;", "while true: return 4;", "do return 5; while true;", "{ return 6; }", "break;", "if true: break;", "fun g() { break; }", "while false: { fun g() { break; } }", "{ { { } } }"]))
    # values of expression statements never leak; deep nesting of blocks
    for n in (1, 2, 5, 20, 60):
        S.append({"src": "x = 0; " + "{ x = x + 1; " * n + "}" * n + " return x;"})
        S.append({"src": "x = 0; " + "if x < %d: { x = x + 1; " % (n // 2) * n + "}" * n + " return x;"})
    S.append({"src": "x = 0; " + "if x >= 0: { x = x + 1; while true: { break; } 5; [x]; } " * 40 + " return x;"})
    S.append({"src": "i = 0; while i < 300: { i = i + 1; i; [i]; if true: { 'v'; } } return i;"})
    for k in ("while i < 40: { i = i + 1; %s }", "do { i = i + 1; %s } while i < 40;"):
        for b in ("if i == 33: break;", "1; 2; 3; if i % 2 == 0: { 4; } else { 5; 6; }", "if i > 20: { j = 0; while true: { j = j + 1; if j == 3: break; } }", "fun q() return i; q(); q;"):
            S.append({"src": "i = 0; j = 9; %s return i, j;" % (k % b)})
    # nested structures chosen at random
    def stm(d):
        k = r.randint(0, 9)
        if d == 0 or k < 3:
            return r.choice(["print('a');", "x = x + 1;", "print(x, ';');", "{}", "if x > 2: break;" if False else "x = x + 2;"])
        if k < 5: return "if %s: { %s }%s" % (cond(), blk(d - 1), r.choice(["", " else { %s }" % blk(d - 1)]))
        if k < 6: return "if %s: %s else %s" % (cond(), stm(0), stm(d - 1))
        v = "i%d" % r.randint(0, 99)
        brk = r.choice(["", "if %s: break; " % cond(), "if %s: { print('B'); break; } " % cond()])
        if k < 8: return "%s = 0; while %s < %d: { %s = %s + 1; %s%s }" % (v, v, r.randint(0, 3), v, v, brk, blk(d - 1))
        return "%s = 0; do { %s = %s + 1; %s %s} while %s < %d;" % (v, v, v, blk(d - 1), brk, v, r.randint(0, 3))
    def cond():
        return r.choice(["x < 3", "x % 2 == 0", "true", "false", "not (x > 4)", "x == 1 or x == 3", "x > 1 and x < 6"])
    def blk(d):
        return " ".join(stm(d) for _ in range(r.randint(1, 3)))
    for _ in range(ctx.n(250, 4000)):
        S.append({"src": "x = 0; %s print('end', x); return x;" % blk(r.randint(2, 4))})
    S += progs(ctx, ctx.n(60, 1000), loops=2, closures=.1)
    conform(ctx, S, chunk=4000)


@check("C06")
def scopes(ctx):
    r = ctx.rng
    S = []
    # lookup: local, then enclosing scopes outward, then the built-in names
    S.append(tpl("<g> fun f(<p>) { <l> fun g(<q>) { <m> return x; } <n> return g(<a>); } <h> return f(7), x;",
                 g=["x = 1;", ""], p=["", "x"], l=["", "x = 2;"], q=["", "x"], m=["", "x = 3;"], n=["", "x = 4;"], a=["", "8"], h=["", "x = 5;"]))
    S.append(tpl("fun f() { return <n>; } <n~> = 5; return f(), <n~>;", n=["count", "print", "x", "int", "any", "math", "string", "toString", "Numeric", "min", "none"]))
    S.append(tpl("fun f() { <n> = 5; return <n~>; } a = f(); return a, type(<n~>);", n=["count", "print", "int", "toString", "math"]))
    S.append(tpl("<g> fun f(x<p>) { <l> fun g(<q>) { <m> return x; } <n> return g(<a>); } y = f(<a>); z = f(7, 8); return y, z, x;",
                 g=["x = 1;", "x = none;"], p=["", " = none", ", y"], l=["", "x = none;", "if x == none: x = [];"], q=["", "x", "z"], m=["", "x = none;"], n=["", "x = none;", "x = 0;"], a=["", "none", "false"]))
    S.append(tpl("fun f() { <n> = <v>; fun g() { fun h() return <n~>; return h(); } return g(); } <n~> = <w>; return f(), <n~>;", n=["x", "count", "int", "toString", "math"], v=["none", "1"], w=["none", "2"]))
    # built-in names and the members of the built-in modules: only the exact name is found
    for m, ks in {"string": "ord chr cat slice trim toInt", "math": "sin pow PI floor atan2 E", "buffer": "new sliceUp toString fromString", "files": "READ WRITE APPEND openFile nextDirItem", "random": "seed generate", "net": "socket recv"}.items():
        for k in ks.split():
            V = {k, k[:-1], k[1:], k + "x", k + " ", " " + k, k.upper(), k.lower(), k + k, ""}
            S.append({"src": "m = %s; return [%s];" % (m, ", ".join("m['%s']" % v for v in sorted(V)))})
            S.append({"src": "m = %s; z = string.chr(0); return [m[string.cat('%s', z)], m[string.cat('%s', z, 'x')], m[string.cat(z, '%s')], m[z], m[1], m[none], m[1.5], m[true], m[['%s']], m[{}], m[m], m[int]];" % (m, k, k, k, k)})
    for k in "print count type import error assert int float string bool none any istypeof keysof input toString".split():
        if k == "none": continue
        S.append({"src": "return [%s];" % ", ".join(n for n in (k, k[:-1], k[1:], k + "x", k + "_", "_" + k, k.upper(), k + k) if n not in KW)})
    # long names that differ late
    for n in (8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300):
        a = r.choice("abz_") * (n - 1)
        S.append({"src": "%s1 = 1; %s2 = 2; fun %s3(%s4, %s5) { %s1 = %s4; return %s1, %s2, %s5; } x, y, z = %s3(6, 7); m = {%s1: 8, %s2: 9}; return %s1, %s2, x, y, z, m.%s1, m.%s2, m.%s3;".replace("%s", a)})
    # assignment never changes an enclosing scope; blocks are not scopes
    S.append(tpl("x = 1; fun f() { <s> return x; } a = f(); b = f(); return a, b, x;",
                 s=["x = x + 1;", "x = 5;", "if true: x = 6;", "while x < 4: x = x + 1;", "{ x = 9; }", "fun g() { x = 7; return x; } x = g() + 1;", "x, y = 3, 4;", "do x = x * 2; while x < 10;"]))
    S.append(tpl("<b> return x;", b=["{ x = 1; }", "if true: x = 2;", "if false: x = 3;", "while true: { x = 4; break; }", "do { x = 5; } while false;", "fun f() { x = 6; } f();", "fun x() return 1; x = x();"]))
    # a closure sees the variables of its definition, not of its caller, and sees later changes
    S.append(tpl("x = 'global'; fun show() return x; fun caller() { x = 'caller'; return show(); } <s> return caller(), show();", s=["", "x = 'new';"]))
    S.append(tpl("fun mk(n) { fun get() return n; fun add(k) { n = n + k; return n; } return get, add; } g, a = mk(<n>); h, b = mk(<m>); return g(), a(5), g(), h(), b(1), a(5);", n=["1", "10"], m=["2", "3.5"]))
    S.append(tpl("fun mk(n) { c = [n]; fun inc() { c[0] = c[0] + 1; return c[0]; } fun get() return c[0]; return inc, get; }\n"
                 "i, g = mk(<n>); j, h = mk(<n>); <s> <s> return g(), h();", n=["0", "40"], s=["i();", "j();", "i(); i();", "x = g(); j();"]))
    S.append(tpl("x = 1; fun f() { fun g() { fun h() { return x; } return h; } <s> return g(); } <t> k = f(); <u> return k();",
                 s=["", "x = 2;", "fun x() return 9;"], t=["", "x = 3;"], u=["", "x = 4;", "x = [5];"]))
    # closures created in loops share the loop's variables
    S.append(tpl("l = []; i = 0; while i < <n>: { fun f() return i; l[i] = f; i = i + 1; } r = []; j = 0; while j < count(l): { r[j] = l[j](); j = j + 1; } return r;", n=list("0135") + ["9", "17"]))
    S.append(tpl("l = []; fun mk(i) { fun f(k) return i * 10 + k; return f; } i = 0; while i < <n>: { l[i] = mk(i); i = i + 1; } r = []; j = 0; while j < count(l): { r[j] = l[j](j + 1); j = j + 1; } return r;", n=list("0135") + ["9", "17"]))
    # recursion: each activation has its own variables; functions are visible in themselves and to each other
    S.append(tpl("fun fact(n) { if n < 2: return 1; k = n - 1; r = fact(k); return (r * n); } return fact(<n>);", n=list(map(str, range(0, 15)))))
    S.append(tpl("fun ev(n) { if n == 0: return true; return od(n - 1); } fun od(n) { if n == 0: return false; return ev(n - 1); } return ev(<n>);", n=list(map(str, range(0, 13)))))
    S.append(tpl("fun fib(n) { if n < 2: return n; a = fib(n - 1); b = fib(n - 2); return (a + b); } return fib(<n>);", n=list("012358")))
    S.append({"src": "fun f() { return g(); } return f();"})
    S.append({"src": "fun f() { return g(); } fun g() return 3; return f();"})
    S.append({"src": "fun f(n) { if n == 0: { fun z() return n; return z; } return f(n - 1); } return f(4)();"})
    # closures keep their scopes alive in data structures and under garbage collection
    S.append(tpl("fun mk(v) { big = [v, v, [v]]; o = { fun get(self) return big, self.tag; tag: v }; return o; } a = mk(<v>); b = mk('other'); i = 0; while i < 30: { mk([i]); i = i + 1; } x, t = a->get(); y, u = b->get(); return x, t, y, u;",
                 v=["1", "'q'", "{k: 2}"]))
    # many variables in one scope: none is lost or confused
    for n in (1, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 23, 24, 25, 33, 47, 49, 65, 97, 130):
        names = ["v%d" % i for i in range(n)]
        r.shuffle(names)
        S.append({"src": "".join("%s = %d; " % (v, i * 3 + 1) for i, v in enumerate(names)) + "fun f() { return [%s]; } return f(), [%s];"
                  % (", ".join(names[:8]), ", ".join(sorted(names)))})
    S.append({"src": "".join("%s = %d; " % (c, i) for i, c in enumerate("abcdefghijklmnopqrstuvwxyz")) + "return [%s];" % ", ".join("abcdefghijklmnopqrstuvwxyz")})
    S += progs(ctx, ctx.n(150, 2500), closures=1.5, loops=.3, maxst=8)
    conform(ctx, S, schedules=GCS, chunk=3000)


@check("C07")
def calls(ctx):
    r = ctx.rng
    S = []
    T = "fun t(x) { print(x, ' '); return x; }\n"
    # missing arguments are none, extra ones are dropped, defaults replace none
    ps = ["", "a", "a, b", "a, b, c", "a = 1", "a, b = 2", "a = 1, b = 2", "a = 1, b", "a: ?int, b = 'x'", "a = none, b = a", "a = t(5), b = t(6), c = t(7)"]
    for p in ps:
        names = [x.split("=")[0].split(":")[0].strip() for x in p.split(",") if x]
        S.append(tpl(T + "fun f(%s) { print('in '); return [%s]; } return f(<a>), 'end';" % (p, ", ".join(names)),
                     a=["", "1", "1, 2", "1, 2, 3", "1, 2, 3, 4", "none", "none, none", "none, 9", "t(1), t(2)", "t(1), t(2), t(3), t(4), t(5)", "[1], {}"]))
    for n in (0, 1, 2, 7, 8, 13, 14, 15, 16, 17, 18, 20):
        for k in (0, 1, n - 1, n, n + 1, 15, 16, 17):
            if 0 <= k <= 20:
                S.append({"src": "fun f(%s) { return [%s]; } return f(%s);" % (", ".join("p%d" % i for i in range(n)), ", ".join("p%d" % i for i in range(n)), ", ".join(str(i * i) for i in range(k)))})
                S.append({"src": "print(%s);" % ", ".join("'%d '" % i for i in range(k))})
    # evaluation order of arguments and callee
    S.append(tpl(T + "fun f(a, b, c) return [a, b, c]; m = {f: f}; fun g() { print('g '); return f; } fun h() { print('h '); return m; } return <e>;",
                 e=["f(t(1), t(2), t(3))", "g()(t(1), t(2))", "h().f(t(1))", "h()->f(t(1), t(2))", "f(f(t(1)), t(2))", "t(f)(t(t(4)))", "h()['f'](t(3), g()(t(1)))", "[t(1), t(2), t(3)]", "{a: t(1), b: t(2)}", "f(t(1) + t(2), t(3) * t(4))"]))
    # arguments are passed by sharing; parameters are local
    S.append(tpl("fun f(x) { <s> return x; } a = <v>; b = f(a); return a, b;", s=["x = 5;", "x[0] = 9;", "x.k = 1;", "x = [x];", ""], v=["1", "[1, 2]", "{k: 0}", "'s'"]))
    # several results: as many as wanted are delivered, missing ones are none
    S.append(tpl("fun f() return <r>; <d>", r=["1", "1, 2", "1, 2, 3", "[1, 2], 3", "none", "1, 2, 3, 4, 5, 6, 7, 8"],
                 d=["a = f(); return a;", "a, b = f(); return a, b;", "a, b, c = f(); return a, b, c;", "f(); return 'x';", "return f();", "return f(), f();", "return [f(), f()];", "x = f() == 1; return x;",
                    "print(f(), f());", "a, b, c, d, e, g, h, i, j = f(); return [a, b, c, d, e, g, h, i, j];", "m = {k: f()}; return m;", "l = [0]; l[f()] = f(); return l;", "a, b = [f()], f(); return a, b;"]))
    S.append(tpl("fun f(n) { <b> } a, b, c = f(<n>); return a, b, c, f(<n~>);", b=["", "return;", "n;", "if n > 1: return 1, 2;", "if n > 1: return; return 4;", "return n, [n], {n: n};", "while true: return 7, 8, 9;"], n=["1", "2"]))
    # every number of parameters with every number of arguments, every number of results with every number wanted
    for n in range(10):
        for k in range(11):
            ps = ["p%d" % i for i in range(n)]
            S.append({"src": "fun f(%s) { return [%s]; } x = f(%s); return x;" % (", ".join(p + r.choice(["", "", " = %d" % (70 + i), ": ?int"]) for i, p in enumerate(ps)), ", ".join(ps), ", ".join(str(10 + i) for i in range(k)))})
    for n in range(1, 9):
        for k in range(1, 10):
            vs = ["v%d" % i for i in range(k)]
            S.append({"src": "fun f() return %s; %s = f(); return [%s];" % (", ".join(str(20 + i) for i in range(n)), ", ".join(vs), ", ".join(vs))})
            if r.random() < .5:
                S.append({"src": "l = []; m = {}; fun f() return %s; %s = f(); return l, m;" % (", ".join("[%d]" % i for i in range(n)), ", ".join(["l[%d]", "m.k%d"][i % 2] % (i // 2 if i % 2 == 0 else i) for i in range(k)))})
    for n in range(1, 12):
        S.append({"src": "fun f() return %s; %s = f(); return [%s];" % (", ".join(str(i) for i in range(n)), ", ".join("v%d" % i for i in range(9)), ", ".join("v%d" % i for i in range(9)))})
        S.append({"src": "return %s;" % ", ".join(str(i) for i in range(n))})
    for n in range(12):
        for k in ([n - 1, n, n + 1] if ctx.quick else range(14)):
            ps = ", ".join(["self"] + ["p%d" % i for i in range(n)])
            if k >= 0:
                S.append({"src": "fun m(%s) return [%s], 2, 3; o = {k: 'the object', m: m}; <d>".replace("<d>", r.choice(["return o->m(%s);", "x, y = o->m(%s); return x, y;", "x, y, z, w = {n: o}.n->m(%s); return x, y, z, w;", "return [o->m(%s), 1];"])) % (ps, ps, ", ".join("%d" % (30 + i) for i in range(k)))})
    # native functions: padding and extra arguments
    S.append(tpl("return <f>(<a>);", f=["type", "typename", "count", "string.trim", "min", "toString", "print", "string.cat", "istypeof", "abs", "string.ord", "keysof", "isCallable"], a=["", "'q'", "'q', 'w'", "[3], 4, 5", "1, 2, 3"]))
    # methods get the object first
    S.append(tpl("o = {v: 5, fun get(self, k=1) { return self.v + k; }, fun set(self, x) { self.v = x; return self; }}; <s> return o->get(<a>), o.get(<b>), o.v;".replace("}, fun", "} fun"),
                 s=["", "o->set(8);", "o->set(1)->set(2);", "o.set(o, 3);", "p = o; p->set(9);"], a=["", "2", "3, 4"], b=["o", "{v: 10}", "o, 7"]))
    # only functions can be called
    S.append(tpl(DECL + "print('x'); y = <v>; return y(1, 2);", v=VALUES))
    S.append(tpl(DECL + "m = {k: <v>}; return m->k(1);", v=VALUES))
    # call depth
    S.append(tpl("fun f(n) { if n == 0: return 'bottom'; return f(n - 1); } print('s'); return f(<n>);", n=["0", "1", "5", "12", "13", "14", "15", "16", "40"]))
    S += progs(ctx, ctx.n(120, 2500), closures=1.5, loops=.2, types=.1, maxst=8)
    conform(ctx, S, chunk=4000)


TYPES = ["int", "bool", "float", "String", "None", "Type", "List", "Map", "Buffer", "any", "?int", "?String", "int | String", "int | float | None", "?(bool | List)", "Numeric", "Callable", "Collection",
         "[int]", "[int, String]", "[]", "{}", "{a: int}", "{a: int, 2: String}", "[?int, [any]]", "{k: {v: int}}", "(int | [int])", "?{a: any}", "Func", "NFunc", "File", "Directory", "type(1)", "type(L)", "type(F)", "none", "1"]


@check("C08")
def paramtypes(ctx):
    r = ctx.rng
    vals = VALUES + ["[1, 2]", "[1, 'x']", "['x', 1]", "{a: 1}", "{a: 'x'}", "{k: {v: 3}}", "{k: {v: 'z'}}", "[none, [5]]", "[1]", "{2: 'b'}", "{z: 1}"]
    S = [tpl(DECL + "fun f(p: %s) { print('body '); return p; } return f(<v>), 1;" % t, v=some(r, vals, 13) if ctx.quick else vals) for t in TYPES]
    # defaults are applied before the check; missing arguments are none; other parameters unaffected
    S.append(tpl(DECL + "fun f(p: <t> = <d>, q: <t>) { print('body'); return p, q; } return f(<a>);",
                 t=["int", "?int", "String", "any", "int | String"], d=["1", "'s'", "none", "2.5"], a=["", "5", "none, 5", "'a', 'b'", "none, none", "5, 6, 7"]))
    # every parameter is checked, in order, before the body runs
    S.append(tpl("fun t(x) { print(x); return x; } fun f(a: t(<t>), b: t(<t>) = t(<v>), c: t(<t>)) { print('body'); return [a, b, c]; } return f(<v>, none, <v>);",
                 t=["int", "String"], v=["1", "'q'", "none"] if not ctx.quick else ["1", "'q'"]))
    # ... however many there are, and wherever the annotated one is
    for n in range(1, 15):
        for i in (range(n) if not ctx.quick or n in (12, 13) else some(r, range(n), 3) + [n - 1]):
            t, good, bad = r.choice([("int", "7", "'x'"), ("String", "'y'", "2"), ("?int", "none", "1.5"), ("[int]", "[1]", "['q']"), ("int | String", "3", "none")])
            ps = ", ".join("p%d: %s" % (k, t) if k == i else "p%d%s" % (k, r.choice(["", "", ": any", " = 4"])) for k in range(n))
            for v in (good, bad):
                S.append({"src": DECL + "fun f(%s) { print('body'); return p%d; } return f(%s), 1;" % (ps, i, ", ".join(v if k == i else str(k) for k in range(n)))})
            S.append({"src": "fun f(%s) { print('body'); return p%d; } return f(%s), 1;" % (", ".join("p%d: %s" % (k, t) for k in range(n)), i, ", ".join(bad if k == i else good for k in range(n)))})
    # types are values of the defining scope, evaluated at each call
    S.append(tpl("T = int; fun f(p: T) return p; fun mk(U) { fun g(p: U) return p; return g; } <s> return f(<v>), mk(<u>)(<v>);",
                 s=["", "T = String;", "T = ?int;"], v=["1", "'a'", "none"], u=["int", "String", "?int"]))
    S.append(tpl("fun f(n, l: [int, ?String], m: {a: int} = {a: 3}) return count(l) + m.a + n; return f(<n>, <l>, <m>);",
                 n=["0", "none"], l=["[1, 'a']", "[1, none]", "[1]", "['x', 'y']", "[1, 'a', 5]", "none", "[]"], m=["none", "{a: 4}", "{a: 'b'}", "{}", "{b: 1}"]))
    # messages mention position and name
    S.append(tpl("fun f(a, bb: any, <n>: int, d) return 1; print('go'); return f(<v>, <v>, <v>);", n=["ccc", "x_1"], v=["1", "'s'", "[1, [2, 'z']]", "{k: none}", "print", "int", "1.5", "true"]))
    # long descriptions of the type and of the value
    for n in some(r, range(1, 500), ctx.n(14, 120)) + [126, 127, 128, 254, 255, 256]:
        v = r.choice(["'%s'" % ("s" * n), "'%s'" % ("\u00e9" * (n // 2)), "[%s]" % ", ".join(["1"] * (n // 3 + 1)), "{%s}" % ", ".join("k%d: 'v'" % i for i in range(n // 10 + 1)), "[" * (n % 30) + "]" * (n % 30)])
        t = r.choice(["int", "?int", "[%s]" % ", ".join(["int"] * (n // 7 + 1)), "{%s}" % ", ".join("q%d: ?int" % i for i in range(n // 12 + 1)), "(%s)" % " | ".join(["int"] * (n // 8 + 2))])
        S += [{"src": "fun f(a, the_name: %s) return 1; print('go'); return f(%s);" % (t, x)} for x in ("0, " + v, v)]
    # istypeof agrees
    S.append(tpl(DECL + "return istypeof(<t>, <v>);", t=TYPES if not ctx.quick else some(r, TYPES, 14), v=vals if not ctx.quick else some(r, vals, 14)))
    S += progs(ctx, ctx.n(80, 1500), closures=1.5, types=.9, loops=.2, maxst=7)
    conform(ctx, S, schedules=({},) if ctx.quick else GCS, chunk=4000)


@check("C09")
def assignment(ctx):
    r = ctx.rng
    S = []
    T = "fun t(x) { print(x, ' '); return x; } fun two() return 8, 9; "
    # the value of an assignment is the assigned value; chains go right to left
    S.append(tpl("l = [0, 0]; m = {k: 0}; <x> = <y> = <v>; return x, y, l, m;".replace("return", "x0 = 1; return") if False else
                 "l = [0, 0]; m = {k: 0}; x = y = none; <t> = <t> = <v>; return x, y, l, m;", t=["x", "y", "l[0]", "l[1]", "m.k", "m['z']", "m[l]"], v=["1", "'s'", "[5]", "x", "l[0]"]))
    S.append(tpl("x = 1; y = (x = <v>) <op> 1; z = [x = 4, x, y = 2]; fun f(a) return a; w = f(x = 6); return x, y, z, w;", v=["2", "3"], op=["+", "*", "=="]))
    # targets
    S.append(tpl(DECL + "<t> = 1; return <t~>;", t=["x", "L[0]", "M.a", "M[2]", "L[0][1]", "M.a.b", "1", "'s'", "none", "F()", "(x)", "x + 1", "-x", "[x]", "{}", "M->a", "not x", "x.y", "x[0]", "L[count(L)]", "int", "(L[0])"]))
    # destructuring
    S.append(tpl(T + "l = [0, 0, 0]; m = {}; <d> return [x, y, z], l, m;".replace("<d>", "x = y = z = none; <d>"),
                 d=["x, y = 1, 2;", "x, y = two();", "x, y, z = two();", "x, y = 1;", "x, y = [1, 2];", "x, y = two(), 3;", "x, y = 3, two();", "x, y, z = 1, 2, 3;", "l[0], l[1] = two();", "m.a, m.b = two();", "l[two()], x = 1, 2;",
                    "x, x = 1, 2;", "x, y = y, x;", "x = 1, 2;", "x, 1 = 1, 2;", "x, y, z = 1, 2;", "x, y = 1, 2, 3;", "(x, y) = two();", "x, l[2], m['q'] = two();", "l[t(0)], l[t(1)] = t(5), t(6);", "x, y = z = 4;", "m.a, l[0], x = t(two());"]))
    S.append(tpl(T + "a = 1; b = 2; c = 3; <p>, <p> = <e>; return a, b, c;", p=["a", "b", "c"], e=["b, a", "c, c", "a + b, c", "two()", "[a], b", "t(a), t(b)"]))
    # sides are evaluated in a fixed order
    S.append(tpl(T + "l = [[1], [2]]; m = {}; <e>; return l, m;", e=["l[t(0)][t(0)] = t(7)", "t(l)[t(1)] = t(2)", "m[t('a')] = m[t('b')] = t(1)", "t(m).z = t(3)", "l[t(0)] = l[t(1)] = t([9])", "m[t(1)], m[t(2)] = t(3), t(4)"]))
    # insertion errors
    S.append(tpl(DECL + "print('p'); y = <v>; y[<k>] = <w>; return y;", v=VALUES if not ctx.quick else some(r, VALUES, 14), k=["0", "'a'", "1", "none", "-1", "2.5", "[]", "true"] if not ctx.quick else some(r, ["0", "'a'", "1", "none", "-1", "2.5", "[]", "true"], 4), w=["1", "'z'"] if not ctx.quick else ["1"]))
    S.append(tpl(DECL + "y = <v>; y.a = 5; return y;", v=VALUES))
    for n in (2, 3, 4, 7, 8, 9, 15, 16):
        S.append({"src": "fun f() return %s; %s = f(); return [%s];" % (", ".join("%d" % (i + 5) for i in range(min(n, 8))), ", ".join("a%d" % i for i in range(n)), ", ".join("a%d" % i for i in range(n)))})
        S.append({"src": "%s = %s; return [%s];" % (", ".join("a%d" % i for i in range(n)), ", ".join("%d" % (i + 5) for i in range(n)), ", ".join("a%d" % i for i in range(n)))})
        S.append({"src": "%s 5; return [%s];" % ("".join("a%d = " % i for i in range(n)), ", ".join("a%d" % i for i in range(n)))})
    # targets of all kinds in one assignment
    for _ in range(ctx.n(150, 2500)):
        n, k = r.randint(1, 8), r.randint(2, 9)
        at, L = [], 0
        for i in reversed(range(k)):            # the last target is the first to be stored to
            x = r.choice(["v%d" % i, "v%d" % r.randrange(k), "l[%d]", "l[%d]", "m.k%d" % i, "m['k%d']" % r.randrange(k), "l[0][%d]" % r.randint(0, 2), "g(%d)[%d]" % (i, r.randint(0, 2))])
            if "%d" in x:
                x = x % r.randint(0, L + 1)
                L += 1
            at.insert(0, x)
        S.append({"src": "%s l = [[0, 1], 0]; m = {}; q = [7, 8]; fun g(i) { print(i, ' '); return q; } fun f() return %s; x = (%s = f()); return [%s], l, m, q, x;" %
                  (" ".join("v%d = none;" % i for i in range(k)), ", ".join(r.choice(["%d", "'%d'", "[%d]"]) % (i + 10) for i in range(n)), ", ".join(at), ", ".join("v%d" % i for i in range(k)))})
    S += progs(ctx, ctx.n(100, 2000))
    conform(ctx, S, chunk=4000)


@check("C19")
def types(ctx):
    r = ctx.rng
    S = []
    S.append(tpl(DECL + "v = <v>; return type(v), typename(v), (type(v) == <t>), (type(type(v)) == Type);", v=VALUES, t=["int", "String", "None", "List", "Type", "any", "Map", "bool", "float", "Buffer"] if not ctx.quick else ["int", "Map", "Type"]))
    ts = TYPES
    # combinators
    S.append(tpl(DECL + "print(<t>, ';', ?<t~>); return 1;", t=["int", "None", "any", "(int | float)", "String", "[int]", "{a: int}", "?bool", "Numeric", "none", "1", "'x'"]))
    S.append(tpl(DECL + "T = <t> | <t>; print(T); return type(T), istypeof(T, <v>);", t=["int", "?String", "any", "[int]", "None", "none", "{a: Map}"], v=["1", "'a'", "none", "[1]", "[]", "{}"]))
    vals = VALUES + ["[1, 2, 3]", "[[1], 'a']", "{a: {b: 1}}", "{a: [1]}", "[none]", "[[[]]]"]
    pats = ts + ["[[int], String]", "{a: {b: int}}", "{a: {b: String}}", "[[[]]]", "?[?int]", "{a: [int] | int}", "[int, int, int]", "[int, int, int, int]", "??int", "any | int", "?any", "(None | None)", "[any, any]", "{a: any, b: any}"]
    S.append(tpl(DECL + "return istypeof(<t>, <v>);", t=pats if not ctx.quick else some(r, pats, 28), v=vals if not ctx.quick else some(r, vals, 22)))
    # random type terms against random values
    def ty(d):
        b = r.choice(["int", "bool", "String", "None", "any", "List", "Map", "float", "Type"])
        if d == 0 or r.random() < .3: return b
        return r.choice([lambda: "?" + ty(d - 1), lambda: "(%s | %s)" % (ty(d - 1), ty(d - 1)), lambda: "[%s]" % ", ".join(ty(d - 1) for _ in range(r.randint(0, 3))),
                         lambda: "{%s}" % ", ".join("%s: %s" % (k, ty(d - 1)) for k in r.sample("abcdefghij", r.choice([0, 1, 2, 3, 6])))])()
    def va(d):
        if d == 0 or r.random() < .3: return r.choice(["1", "true", "'s'", "none", "2.5", "int", "[]", "{}"])
        return r.choice([lambda: "[%s]" % ", ".join(va(d - 1) for _ in range(r.randint(0, 3))), lambda: "{%s}" % ", ".join("%s: %s" % (k, va(d - 1)) for k in r.sample("abcdefghij", r.choice([0, 1, 2, 3, 6])))])()
    def of(t):      # a value that belongs to type text t, mostly
        t = t.strip()
        return {"int": "1", "bool": "true", "String": "'s'", "None": "none", "any": va(1), "List": "[3]", "Map": "{z: 1}", "float": "2.5", "Type": "int"}.get(t, va(2))
    def pair(d):
        b = r.choice(["int", "bool", "String", "None", "any", "List", "Map", "float", "Type"])
        if d == 0 or r.random() < .2: return b, (of(b) if r.random() < .9 else va(1))
        k = r.randint(0, 3)
        if k == 0:
            t, v = pair(d - 1)
            return "?" + t, r.choice([v, "none"])
        if k == 1:
            (t, v), (u, w) = pair(d - 1), pair(d - 1)
            return "(%s | %s)" % (t, u), r.choice([v, w])
        n = r.choice([0, 1, 2, 3, 5])
        ps = [pair(d - 1) for _ in range(n)]
        if k == 2:
            vs = [v for _, v in ps] + (["7"] if r.random() < .3 else [])
            if r.random() < .15 and vs: vs.pop()
            return "[%s]" % ", ".join(t for t, _ in ps), "[%s]" % ", ".join(vs)
        ks = r.sample("abcdefghij", n)
        ent = ["%s: %s" % (a, v) for a, (_, v) in zip(ks, ps)]
        if r.random() < .15 and ent: ent.pop()
        if r.random() < .15: ent.append("zz: 1")
        r.shuffle(ent)
        return "{%s}" % ", ".join("%s: %s" % (a, t) for a, (t, _) in zip(ks, ps)), "{%s}" % ", ".join(ent)
    for _ in range(ctx.n(350, 6000)):
        t, v = pair(r.randint(1, 4)) if r.random() < .8 else (ty(3), va(3))
        S.append({"src": "T = %s; v = %s; print(T); fun f(p: T) return 'ok'; return istypeof(T, v), istypeof(v, T), istypeof(any, v), istypeof(?T, v), f(v);" % (t, v)})
    # every two combinators, one inside the other
    leafs = [("int", "1"), ("String", "'s'"), ("float", "2.5"), ("bool", "true"), ("None", "none"), ("List", "[9, 9, 9]"), ("Map", "{zz: 9}"), ("any", "print")]
    def level(sub):
        for k in range(6):
            (t, v), (u, w) = sub(), sub()
            yield [("(%s | %s)" % (t, u), v + w), ("?%s" % t, v + ["none"]), ("[%s]" % t, ["[%s]" % x for x in v] + ["[]"]), ("[%s, %s]" % (t, u), ["[%s, %s]" % (r.choice(v), y) for y in w] + ["[%s, %s]" % (x, r.choice(w)) for x in v]),
                   ("{a: %s}" % t, ["{a: %s}" % x for x in v] + ["{}"]), ("(%s)" % t, v)][k]
    def leaf():
        t, v = r.choice(leafs)
        return t, [v]
    for _ in range(ctx.n(1, 8)):
        for i in range(6):
            for j in range(6):
                for t, v in level(lambda: list(level(leaf))[r.choice([i, j])]):
                    v = list(dict.fromkeys(v))[:8] + [r.choice(leafs)[1] for _ in range(2)]
                    S.append({"src": "T = %s; print(T); return %s;" % (t, ", ".join("istypeof(T, %s)" % x for x in v[:8]))})
    # lists and maps of many types: the value differs at one place
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 64, 65, 100):
        for at in sorted({0, n // 2, n - 1, r.randrange(n), n, -1} | ({16, 15, 8} if n > 16 else set())):
            tys = [r.choice(["int", "String", "?int", "bool"]) for _ in range(n)]
            def build(fmt, wrap, xs):
                pre, rest = xs[:12], xs[12:]
                return wrap[0] + ", ".join(fmt(j, x) for j, x in enumerate(pre)) + wrap[1] + "; " , rest
            vs = [{"int": "5", "String": "'s'", "?int": "none", "bool": "true"}[t] for t in tys]
            if 0 <= at < n: vs[at] = "2.5"
            if at == n: vs.append("1")
            S.append({"src": "T = []; v = []; %s%s i = istypeof(T, v); fun f(p: T) return 'ok'; return i, f(v);" % ("".join("T[%d] = %s; " % z for z in enumerate(tys)), "".join("v[%d] = %s; " % z for z in enumerate(vs)))})
            if at == n: vs = vs[:-1]
            S.append({"src": "T = {}; v = {}; %s%s%s i = istypeof(T, v); return i;" % ("".join("T.k%d = %s; " % z for z in enumerate(tys)), "".join("v.k%d = %s; " % z for z in r.sample(list(enumerate(vs)), n)), "v.zz = 1;" if at == n else "")})
    # types and values that contain themselves
    C = ["int", "T", "U", "?T", "(int | T)", "(U | String)", "any", "[U]", "{n: T}", "?(U | T)"]
    V = ["1", "a", "b", "none", "'s'", "[a]", "{n: b}"]
    S.append(tpl("T = [int]; U = {n: int}; a = [1]; b = {n: 1}; T[<i>] = <t>; U.n = <u>; a[<i~>] = <v>; b.n = <w>; b.z = a; r = istypeof(T, a); return r, istypeof(U, b), istypeof(T, b), istypeof([T, ?U], [a, b]), istypeof((U | T), [a]), istypeof(a, a);",
                 i=["0", "1"], t=some(r, C, ctx.n(4, 10)), u=some(r, C, ctx.n(4, 10)), v=some(r, V, ctx.n(4, 7)), w=some(r, V, ctx.n(3, 7))))
    S.append(tpl("T = {v: int, n: none}; T.n = <t>; U = {v: int, n: none}; U.n = <u>; a = {v: 1, n: none}; b = {v: <x>, n: <n>}; a.n = b; fun f(l: T) return l.n.n; return istypeof(U, a), istypeof(T, b), (f(a) == none), istypeof(T, T);",
                 t=["?T", "(T | None)", "T", "U", "?U", "?[T]"], u=["T", "?T", "(None | U)"], x=["1", "'x'", "none"], n=["none", "a", "b", "[a]", "5"]))
    # equality and identity of types
    S.append(tpl(DECL + "return (type(<v>) == type(<w>)), (type(<v>) != type(<w>));", v=some(r, VALUES, 10), w=some(r, VALUES, 10)))
    S.append(tpl("return (<x> == <y>), isCallable(<x~>);", x=["int", "Func", "NFunc", "type(print)", "type(1)", "None", "type(none)", "print", "toString"], y=["int", "type(toString)", "type(count)", "None"]))
    conform(ctx, S, schedules=({},) if ctx.quick else GCS, chunk=4000)


def names_in(d):
    return [k for k in d]


GOODARGS = [("string.slice", ["'abcd'", "1", "2"]), ("buffer.sliceUp", ["B", "1", "1"]), ("string.cat", ["'a'", "'b'", "'c'"]), ("math.pow", ["2.0", "1.0"]), ("math.atan2", ["0.0", "1.0"]),
            ("istypeof", ["int", "1"]), ("append", ["L", "1"]), ("toString", ["L", "false"]), ("makeIterator", ["L", "true"]), ("min", ["1", "2"]), ("max", ["1.5", "2"]), ("stringFromDigit", ["3"]),
            ("stringFromFloating", ["2.5", "2"]), ("stringFromMap", ["M", "true"]), ("assert", ["true", "true", "true"]), ("print", ["1", "2", "3"]), ("integerFromDigit", ["'3'"])]


@check("C20")
def builtin_args(ctx):
    r = ctx.rng
    fns = ["type", "typename", "print", "count", "keysof", "error", "assert", "istypeof", "string.ord", "string.chr", "string.cat", "string.trim", "string.slice", "string.toInt", "buffer.new", "buffer.sliceUp",
           "buffer.toString", "buffer.fromString", "math.floor", "math.ceil", "math.pow", "math.atan2", "math.sqrt", "math.sin", "math.cos", "math.tan", "math.asin", "math.acos", "math.atan", "math.exp", "math.log", "math.log10", "toString", "append", "min", "max", "abs", "isCallable", "integerFromDigit", "makeIterator", "import"]
    S = []
    for f in fns:
        S.append(tpl(DECL + "print('b '); return %s(<v>);" % f, v=VALUES if not ctx.quick else some(r, VALUES, 17)))
        S.append(tpl(DECL + "print('b '); return %s(<v>, <w>);" % f, v=some(r, VALUES, 5 if ctx.quick else 14), w=some(r, VALUES, 4 if ctx.quick else 14)))
    # calls that are fine but for one argument
    for f, ok in GOODARGS:
        for k in range(len(ok)):
            S.append(tpl(DECL + "print('b '); x, y = %s(%s); return x, y;" % (f, ", ".join("<v>" if j == k else a for j, a in enumerate(ok))), v=VALUES if not ctx.quick else some(r, VALUES, 13) + ["none", "2.0", "1"]))
    W = {"files": {"a": "xyz"}, "cwd": "", "main": None}
    for f, ok in [("files.openFile", ["'a'", "files.READ"]), ("files.openDir", ["'.'"]), ("files.nextDirItem", ["D"]), ("files.read", ["H", "B", "1"]), ("files.write", ["G", "B", "1"]), ("random.seed", ["5"]), ("random.generate", ["1", "1"]),
                  ("net.socket", ["net.AF_INET", "-1", "0", "true"]), ("net.bind", ["-1", "net.AF_INET", "0", "'127.0.0.1'"]), ("net.listen", ["-1", "1"]), ("net.accept", ["-1"]), ("net.recv", ["-1", "B", "1"]), ("net.send", ["-1", "B", "1"]), ("net.close", ["-1"])]:
        for k in range(len(ok)):
            bad = [v for v in VALUES + ["none", "2.0", "H", "D"] if not re.match(r"-?\d+$", v)]
            S.append(tpl(DECL + "H = files.openFile('a', files.READ); G = files.openFile('b', files.READ + files.WRITE); D = files.openDir('.'); print('b '); x, y = %s(%s); print('c'); return 1;" % (f, ", ".join("<v>" if j == k else a for j, a in enumerate(ok))),
                         v=bad if not ctx.quick else some(r, bad, 7) + ["none", "'a'", "B", "H"], fs=W))
            S.append({"src": DECL + "print('b '); %s(%s); print('c'); return 1;" % (f, ", ".join(ok[:k]).replace("G", "files.openFile('b', 3)").replace("H", "files.openFile('a', 1)")), "fs": W})
    S.append(tpl(DECL + "return string.slice(<s>, <a>, <b>);", s=["'h\u00e9llo\U0001F600'", "''", "'abc'"], a=["none", "0", "1", "2", "-1", "3", "7", "11", "12", "99", "true", "4294967296"], b=["none", "0", "1", "2", "-1", "4", "9", "11", "9223372036854775807"] if not ctx.quick else ["none", "0", "1", "-1", "2", "9223372036854775807"]))
    S.append(tpl(DECL + "b = buffer.fromString('abcdef'); return buffer.sliceUp(b, <a>, <l>);", a=["none", "0", "5", "6", "7", "-1", "2.0", "4294967296", "-9223372036854775807"], l=["none", "0", "1", "6", "7", "-1", "4294967297", "9223372036854775807"]))
    S.append(tpl("return string.toInt('<a><b>');", a=["", "0", "-1", "12", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "x", " 1", "00"], b=["", "5", "x", " ", ".5"]))
    S.append(tpl("return string.chr(<n>);", n=["0", "1", "65", "127", "128", "-1", "1114111", "1114112", "4294967361", "9223372036854775807", "-4294967231", "2.0"]))
    S.append(tpl("return buffer.new(<n>);", n=["0", "1", "7", "64", "-1", "-9223372036854775807", "none", "2.5", "'3'"]))
    S.append(tpl("print('x'); assert(<a>, <a>, <a>); print('y');", a=["true", "false", "1", "none"]))
    # every argument position of the functions that take any number of them
    for k in range(1, 13):
        for at in range(k):
            a = [["true"] * k, ["'a'"] * k]
            for bad in ("none", "false", "1"):
                a[0][at] = a[1][at] = bad
                S.append({"src": "print('x'); assert(%s); print('y');" % ", ".join(a[0])})
                S.append({"src": "print('x'); x = string.cat(%s); print('y'); return x;" % ", ".join(a[1])})
    S.append(tpl("return string.<f>;", f=["ord('%s', %d)" % (c * 200, i) for c in ("a", "\u00e9") for i in (0, 63, 64, 65, 126, 127, 128, 129, 198, 199, 200, 255, 256)] + ["slice('%s', %d, %d)" % ("abcdefgh" * 40, i, j) for i in (0, 1, 127, 128, 255, 256, 319, 320) for j in (0, 1, 127, 128, 129, 255, 256, 320, 321)]))
    S.append(tpl("b = buffer.new(300); b[<i>] = 7; c = buffer.sliceUp(b, <i>, <l>); return count(c), c[0];", i=["0", "1", "127", "128", "129", "255", "256", "299"], l=["1", "44", "45", "127", "128", "171", "172", "300"]))
    S.append(tpl("print('x'); <p>error(<e>); print('y');", p=["", "if 1 > 2: "], e=["'boom'", "''", "1", "none", "['a']", "'\u00e9\\n'", "string.cat('a', 'b')", ""]))
    conform(ctx, S, chunk=4000)


ERRS = ["1 / 0", "nosuch", "1 + 'a'", "none()", "not 1", "-'a'", "[1] == [2]", "count(5)", "error('boom')", "assert(false)", "L[9] = 1", "1 % 0", "M[print] = 1", "string.ord('')", "9223372036854775807 / 0", "typed('x')", "if 1: 2", "1 < none",
        "[][0] = 1; 1[0] = 2", "while 5: 6", "B[99] = 1", "1 and true", "math.floor(1)", "toString(B)", "deep(30)", "true or (1 / 0)", "import('nosuch.noja')", "F(1, 2)(3)", "buffer.new(-1)", "'a' % 2",
        # the limits of the machine
        "1 + (" * 17 + "1" + ")" * 17, "[" * 17 + "1" + ", 2]" * 17, "1 + (" * 15 + "1 / 0" + ")" * 15, "F(" + ", ".join(["1"] * 15) + ")", "F(" + ", ".join(["1"] * 16) + ")", "wide()", "wider()"]
EDECL = DECL + "fun typed(p: int) return p; fun deep(n) return deep(n - 1); fun wide() return 1, 2, 3, 4, 5, 6, 7, 8; fun wider() return 1, 2, 3, 4, 5, 6, 7, 8, 9;\n"


@check("C21")
def errors(ctx):
    r = ctx.rng
    S = []
    # the error ends the program at once, from any context; what was printed before stays
    ctxs = ["print('a'); %s; print('b');", "print('a'); fun f() { print('f'); %s; print('g'); return 1; } f(); print('b');",
            "print('a'); i = 0; while i < 3: { print(i); i = i + 1; if i == 2: { %s; } } print('b');",
            "fun f(x) { if x > 2: { %s; } return f(x + 1); } print('s'); f(0); print('b');",
            "fun f(p = { fun k() { %s; return 1; } }) { print('p'); return p->k(); } print('s'); f(); print('b');",
            "do { print('d'); %s; } while true;", "l = [0]; fun f() { l[0] = l[0] + 1; %s; return 2; } l[1] = f(); print(l);"]
    for c in ctxs:
        S.append(tpl(EDECL + c % "<e>", e=ERRS if not ctx.quick else some(r, ERRS, 18)))
    S.append(tpl(EDECL + "print('a'); <e>; print('b');", e=ERRS[-7:]))
    # every function of the library, with arguments that it refuses
    S.append(tpl(DECL + "print('a'); <e>; print('b');", e=["assert(%s)" % ", ".join(["true"] * i + [x] + ["true"] * j) for i in range(4) for j in range(3) for x in ("none", "false", "1", "[]")]))
    for f, ok in GOODARGS if not ctx.quick else some(r, GOODARGS, 14):
        k = r.randrange(len(ok))
        S.append(tpl(DECL + "print('a'); x, y = %s(%s); print('b');" % (f, ", ".join("<v>" if j == k else a for j, a in enumerate(ok))), v=some(r, VALUES, 5) + ["none"]))
    # inside larger expressions: what is to the left has happened, what is to the right has not
    S.append(tpl(EDECL + "fun t(x) { print(x); return x; } y = <x>; print('end');",
                 x=["[t(1), 1 / 0, t(2)]", "{a: t(1), b: nosuch, c: t(2)}", "t(t(1) + nosuch + t(2))", "F(t(1), 1 / 0)", "t(1) + (t(2) / 0) + t(3)", "t(L)[t(0)] = 1 / 0", "F(1 / 0, t(1))", "t(1) < t('a')", "t(false) and (1 / 0)", "t(true) or nosuch", "t(true) and nosuch"]))
    # an error's text is the text given, whatever its characters
    S.append(tpl("print('a'); error('<p><c>d<p~>');", p=["", "%", "%5", "%%"], c=["", "%", "s", "d", "n", "x"]))
    S.append(tpl("error('a<c>b');", c=[chr(c) for c in range(32, 127) if chr(c) not in "'\\"] + ["\\\\", "\\'", "\\n", "\\t", "\u00e9", "\U0001F600", "%s%n%d", "%.9999d", "{}", "\\\\n"]))
    S.append(tpl("fun f(x: int) return x; M = {}; <e>;", e=["error(string.cat('50', '%', ' done'))", "f('%s%n')", "import('%s%n.noja')", "error(toString(['%d', 1.5]))", "none('%s')", "M['%n'].a.b", "'%s' + 1", "error('%s', 1)", "string.ord('%', 2)", "string.toInt('%s%s')"]))
    # error conditions are never swallowed, whatever comes afterwards
    for _ in range(ctx.n(420, 7000)):
        S.append({"src": gen.Gen(r, err=r.choice([.02, .05, .15]), types=.5).program()})
    # error messages with names and types
    S.append(tpl(DECL + "return <v><p>;", v=VALUES, p=["()", "[0]", ".a", " + 1", " < 1", " == [1]", " and true", " - 'x'", " % 2"] if not ctx.quick else some(r, ["()", " + 1", " < 1", " == [1]", " and true", " % 2"], 4)))
    long = [gen.q("ab\u00e9 " * 200)[:1] + ("ab\u00e9 " * 200)[:n] + "'" for n in (30, 50, 63, 64, 65, 100, 126, 127, 128, 129, 200, 254, 255, 256, 300, 390)]
    S.append(tpl("fun f(a_parameter: <t>, b=1) { print('in'); return a_parameter; } print('s'); return f(<v>, 2);", t=["int", "?(int | List)", "none"], v=long))
    S.append(tpl("T = <t>; fun f(p: T) return p; return f(<v>);", t=["|".join(["int", "bool", "Map", "List"] * k) for k in (1, 3, 6, 12, 20)] + ["[" + "int, " * k + "int]" for k in (5, 20, 60)], v=["'s'", long[8], "[" + "'x', " * 30 + "1]"]))
    S.append(tpl("return <n>;", n=["nosuch", "a_very_long_identifier_name_that_is_not_defined_anywhere", "x" * 40, "Q", "_", "printt"]))
    conform(ctx, S, chunk=4000)


@check("C22")
def traces(ctx):
    r = ctx.rng
    S = []
    def lay(s):
        return gen.respace(s, r, nl=r.choice([.15, .4, .7]))
    # one failing operation in a nest of calls, any layout
    for _ in range(ctx.n(300, 5000)):
        d = r.randint(0, 6)
        body = "print('x'); %s; return 2;" % r.choice(ERRS)
        for i in range(d):
            k = r.randint(0, 5)
            inner = "fun g%d(a) { x = 1; %s return 5; } " % (i, body)
            use = r.choice(["g%d(1);", "y = g%d(2);", "y = [1, g%d(3), 2];", "return g%d(1);", "if true: { g%d(4); }", "while true: { z = g%d(1) + 1; break; }", "{ k: g%d }.k(1);" if False else "z = {k: g%d(1)};", "z = -g%d(1);", "p, q = g%d(1);", "g%d(count('ab'));", "string.cat('a', g%d(1));", "print(g%d(1), 2);", "m = {f: g%d}; m->f();", "if g%d(1) > 1: print(3);"]) % i
            body = inner + use
        S.append({"src": lay(EDECL + body)})
    # random programs with failing operations
    for _ in range(ctx.n(300, 5000)):
        p = gen.Gen(r, err=r.choice([.03, .08]), closures=1, types=.4).program()
        S.append({"src": lay(p) if r.random() < .6 else p})
    # each construct on lines of its own
    S.append(tpl("x =\n1;\ny = <e>;\n", e=["1\n/\n0", "[1,\n2,\nnosuch]", "nosuch\n(1,\n2)", "{a: 1,\nb: -none\n}", "print(\n1,\n1 +\n'a'\n)", "x\n.\ny\n.\nz\n(1)", "x\n(1)", "(1\n+ 2\n)\n* none", "not\n1", "1 <\nnone", "x[0]\n= 5", "?int", "error(\n'm'\n)", "1 and\ntrue", "(x == [])\n== ([] == \n[])", "true and\n(true\nand 5\n)"]))
    S.append(tpl("fun f(a: int,\nb: String,\nc: ?int\n) {\nreturn 1;\n}\n\nf(<a>,\n<b>,\n<c>);", a=["1", "none", "'x'"], b=["'s'", "1"], c=["1", "none", "2.5"]))
    S.append(tpl("if\n<c>\n: {\n}\nelse {\n}\nwhile\n<d>\n: break;\ndo {\n} while\n<c>;", c=["false", "1", "none"], d=["true", "0"]))
    # every construct spread over lines, one token per line, the failing part at every place
    F = ["1 / 0", "nosuch", "none(2)", "1 + 'a'", "L == L", "-none", "F(1).k()", "1"]
    shapes = ["x = [<a>, <b>, <c>];", "x = {a: <a>, b: <b>, c: <c>};", "x = {(<a>): <b>, (int): <c>};", "x = {1: 2, (F): 4, 3: <c>};", "x = F(<a>, <b>, <c>);", "x = (<a> + 1) * (<b> - 2) - <c>;", "x = L[<a>][<b>] == <c>;", "L[<a>] = <b>;", "L[0] = M['k'] = <c>;",
              "a, L[<b>], M.k = F(<a>);", "return <a>, <b>, <c>;", "x = true and (not (<a> < <b>)) or <c>;", "if <a> < 2: x = <b>; else x = <c>;", "while <a> < 2: { x = <b>; break; }", "do { x = <a>; if x > <b>: break; } while <c> > 1;", "fun g(p: int = <a>, q: (int | <b>)) { return p / (q - <c>); } g(none, 1);",
              "M->nosuch(<a>);", "o = {f: F}; x = o->f(<a>, <b>).y;", "x = ?int | <a> | <b>;", "print(<a>, <b>); assert(<c> == 2, 1 == 2);", "x = M.a.b[<a>].c(<b>);", "x = y = <a> % 0;", "a, b = 1;", "x = -(-<a> * <b>);", "string.cat('a', 'b', <a>);"]
    def ladder(s):
        toks = gen.tokens(s)
        return "".join(r.choice(["\n", "\n", "\n", " ", "\n\n", "#c\n"]) + x for x in toks)
    for sh in shapes:
        for _ in range(ctx.n(7, 60)):
            s = sh
            holes = [h for h in ("<a>", "<b>", "<c>") if h in s]
            bad = r.choice(holes) if holes else None
            for h in holes:
                s = s.replace(h, r.choice(F[:7]) if h == bad else r.choice(F + ["1", "2", "1"] * 5))
            S.append({"src": EDECL + ladder(s)})
    # calls of any number of arguments, laid out in any way, that fail inside
    for k in range(0, 13):
        for _ in range(ctx.n(3, 20)):
            s = r.choice(["x = f(%s);", "f(%s);", "return 1, f(%s);", "o->f(%s);", "m.f(%s);", "x, y = f(%s);", "g(%s);", "y = [f(%s)];"]) % ", ".join(r.choice(["1", "F(2)", "[3]", "'s'"]) for _ in range(k))
            S.append({"src": "fun f(a, b, c, d, e, h, i, j) {\n\n return a / none;\n}\nfun g(a)\n return f(\na,\n1\n);\nm = {f: f, g: g}; o = m; fun F(x) return x;\n\n" + r.choice(["", "fun z(q) {\n%s return 5; } z(1);"]).replace("%s", "") + ladder(s)})
    # through recursion, callbacks and methods
    S.append(tpl("fun f(n) {\n if n == 0:\n  return <e>;\n return\n f(n - 1);\n}\nfun g(h, n)\n return h(n);\no = {\n fun m(self, k) {\n  return g(f, k);\n }\n};\n\no->m(<n>);", e=["1 / 0", "nosuch", "1()", "error('x')"], n=["0", "1", "5", "9", "20"]))
    # uncompilable text: position only through the category (checked elsewhere)
    conform(ctx, S, lines=True, chunk=4000)


@check("C23")
def limits(ctx):
    r = ctx.rng
    S = []
    nmax = range(10, 20)
    # call depth: 16 frames, native frames included
    S.append(tpl("fun f(n) { if n == 0: return <e>; return f(n - 1); } return f(<n>);", n=[str(x) for x in nmax], e=["1", "count('ab')", "f2()", "toString(5)"]))
    S.append(tpl("fun f2() return 3; fun f(n) { if n == 0: return <e>; x = f(n - 1); return x; } print('s'); return f(<n>);", n=[str(x) for x in nmax], e=["1", "count('ab')", "f2()", "toString(5)", "string.trim(' a ')", "count('ab') + f2()"]))
    S.append(tpl("fun a(n) { if n == 0: return 0; return b(n - 1); } fun b(n) { if n == 0: return 1; return a(n - 1); } i = 0; while i < <k>: { a(<n>); i = i + 1; } return i;", n=["13", "14", "15", "16"], k=["1", "5", "40"]))
    # depth is given back by returning
    S.append({"src": "fun f(n) { if n == 0: return 0; return f(n - 1); } i = 0; while i < 100: { f(13); i = i + 1; } return i;"})
    S.append({"src": "fun f() return 1; i = 0; while i < 500: { f(); i = i + 1; } return i;"})
    # operands: 16 per call frame
    for n in range(10, 20):
        nums = ", ".join(map(str, range(n)))
        S += [{"src": "fun f() return 1; return f(%s);" % nums}, {"src": "return count([%s]);" % nums}, {"src": "print(%s);" % nums},
              {"src": "return %s1%s;" % ("(1 + " * n, ")" * n)}, {"src": "return %s[1]%s;" % ("[" * n, "]" * n)}, {"src": "return " + "1 + " * n + "1;"},
              {"src": "m = {%s}; return count(m);" % ", ".join("%d: %d" % (i, i) for i in range(n))}, {"src": "return %s{a: 1}%s;" % ("{a: " * n, "}" * n)},
              {"src": "%s1; return x0;" % "".join("x%d = " % i for i in range(n))}, {"src": "fun f(a) return a; return %s5%s;" % ("f(" * n, ")" * n)},
              {"src": "fun f(a, b) return b; return %s5%s;" % ("f(1, " * n, ")" * n)}, {"src": "return %s5%s;" % ("[1, " * n, "]" * n)},
              {"src": "x = %s5%s; return x;" % ("[1, 2, " * (n // 2), "]" * (n // 2))}, {"src": "%s = 5; return x0;" % ", ".join("x%d" % i for i in range(n))},
              {"src": "fun f() return 7; %s = f(); return [x0, x1];" % ", ".join("x%d" % i for i in range(n))},
              {"src": "fun f(%s) return p0; return f(1);" % ", ".join("p%d" % i for i in range(n))}, {"src": "return %strue;" % ("not " * n)}, {"src": "return %s1%s;" % ("(true and (true or " * (n // 2), " == 1))" * (n // 2))}]
        for k in (0, 1, 2, 3):
            S.append({"src": "fun f() return %s; x = [%s f()]; return x;" % (", ".join(map(str, range(max(1, n - 9)))), "1, " * k)})
            S.append({"src": "fun f() return 1, 2, 3; return %s(f() == %d)%s;" % ("(%d + " % k * n, k, ")" * n)})
    # results: 8 per call
    S.append(tpl("fun f() return <r>; <d>", r=[", ".join(map(str, range(n))) for n in range(1, 12)], d=["return f();", "f(); return 'x';", "a, b = f(); return a, b;", "a1, a2, a3, a4, a5, a6, a7, a8, a9 = f(); return [a8, a9];"]))
    S.append(tpl("print('x'); return <r>;", r=[", ".join(map(str, range(n))) for n in range(1, 12)]))
    # calls give back what they used, however many arguments they were given
    S.append(tpl("fun f(a, b) return a; fun g() {} i = 0; while i < <k>: { <c>; i = i + 1; } return i, f(f(1), 2);", k=["1", "15", "40"],
                 c=["type()", "type(1, 2)", "typename()", "istypeof(int)", "istypeof()", "istypeof(1, 2, 3)", "x = keysof()", "x = [type(), type()]", "keysof({a: 1}, 2, 3)", "string.trim('a', 1, 2)", "math.floor(1.5, 2)", "getCurrentWorkingDirectory(1)", "count('a', 1)",
                    "print()", "assert()", "string.cat()", "f()", "f(1)", "f(1, 2, 3)", "g(1)", "x, y = f()", "x = f(type(), f())", "makeIterator([])->next(1, 2)", "toString()", "buffer.new(2, 3)", "buffer.fromString('x', 1)", "string.slice('abc', 1)", "string.slice('abc')", "math.pow(2.0, 1.0, 3)"]))
    # a frame's operands are its own: deep stacks do not leak into callers
    S.append(tpl("fun f(n) { return [1, 2, 3, 4, 5, n]; } return <e>;", e=["[1, 2, 3, f(4), f(5)]", "f(f(f(1)))", "[f(1), [f(2), [f(3), [f(4)]]]]", "f(1)[5] + f(2)[5] + f(3)[5]"]))
    S += [{"src": gen.Gen(r, depth=r.choice([5, 7]), closures=.6, maxst=5, loops=.3).program()} for _ in range(ctx.n(60, 1000))]
    conform(ctx, S, chunk=4000)


@check("C24")
def rejection(ctx):
    """Texts that are not programs are refused before anything of them runs; any
    text whatever is either run or refused."""
    r = ctx.rng
    S = []
    P = "print('ran');\n"
    bad = ["x = ;", "if true print(1);", "while true { }", "1 +", "f(", ")", "}", "{", "]", "[1, 2", "{a: 1", "{a 1}", "fun", "fun f", "fun f(", "fun f(a", "fun f() ", "return", "1 = 2;", "x + 1 = 2;", "break;", "if true: break;", "f() = 1;", "do x = 1;", "do x; while true", "else x = 1;", "'abc", "\"abc", "'a\\", "@", "1 2", "a b;", "x = = 1;", "fun f() return",
           "{ 1;", "((1);", "1 ! 2;", "a -> ;", "a.1;", "a.;", "x = [1 2];", "x = {1 2};", "fun 1() return 1;", "fun f(1) return 1;", "fun f(a:) return a;", "fun f(a=) return a;", "a, b;", "a, = 1;", ", a = 1;", "-> a;", "none = 1;", "true = 2;", "not = 3;", "?;", "| int;", "* 2;", "/ 2;", "== 1;", "a[;", "a[];", "a[1;", "f(1,);", "99999999999999999999;", "fun f() { break; }", "fun f() { return 1; ", "while true: { fun g() { break; } }", "x = {fun f() {break;}};", "return 1, ;", "if: 1;", "if true: ", "while : x;", "'" + "a" * 300]
    S.append(tpl(P + "<b>", b=bad))
    S.append(tpl("<b>\n" + P, b=bad if not ctx.quick else some(r, bad, 40)))
    S.append(tpl("print('r'); fun f() { <c> }\nif true: { <c> }", c=["x = 1;", "break;", "1 = 2;", "return 1;", "(1;"]))
    # break in every place; targets of every kind
    S.append(tpl("print('r'); <a>; print('e');", a=[a.replace("<h>", h) for a in ("fun f() <h>", "while true: <h>", "do <h> while true", "while true: { fun f() <h> break; }", "x = {fun f() <h>}", "fun f() { while true: <h> }", "fun f() { fun g() <h> }", "while true: { x = {fun f() <h>}; break; }", "if true: <h>", "<h>",
                                                                              "while true: fun f() <h>", "do { fun g() while true: <h> break; } while true")
                                                  for h in ("break;", "{ break; }", "if true: break;", "if false: 1; else break;", "{ { break; } }", "while true: break;", "do break; while true;", "{ while true: break; break; }", "{ 1; break; 2; }")]))
    S.append(tpl("print('r'); a = [[1]]; b = {}; fun f() return 1, 2; <t> <o> <v>; print('e');", o=["="], v=["f()", "[5]", "a = 3"], t=["a", "a[0]", "b.k", "b['k']", "a[0][0]", "1", "'s'", "none", "true", "f()", "f", "(a)", "(a, b)", "[a]", "{a: 1}", "-a", "not a", "+a", "?a", "a + b", "a == b", "a and b", "a, b", "a, 1", "1, a", "a, f()", "a, b, f", "a, (b, f)", "(a, b), f", "a, a[0], b.k", "a, -b", "b->k",
                                                                                                                            "b->k()", "a, b->k()", "int", "int | a", "a | b", "a = b", "a = 1, b", "x = a[0]", "fun g() {}", "(a = b)", "a[0], b = c, a"]))
    # deep nesting is either run or refused
    texts = []
    for n in (30, 100, 400):
        for o, c in (("(", ")"), ("[", "]"), ("{a: ", "}"), ("-", ""), ("not ", ""), ("{", "}"), ("if true: ", "1;"), ("f(", ")"), ("?", "int"), ("fun f() { ", "}")):
            texts.append("print('x');" + o * n + ("1" if c not in ("}", "1;", "int") or o == "{a: " else "") + c * (n if c not in ("1;", "int") else 1) + ";")
            texts.append(o * n)
        texts += ["x = " + "1 + " * n + "1; print(x);", "x" + ".a" * n + ";", "x" + "()" * n + ";", "x" + "[0]" * n + ";", "if true: {} else " * n + "1;", "x = " * n + "1;", "a, " * n + "a = 1;"]
    texts += longlits(r, 60 if ctx.quick else 300)
    texts += ["print('x'); y = '%s" % ("a" * k) for k in (4094, 4095, 4096, 4097)] + ["print('x'); y = '\\%s';" % ("n" * k) for k in (4094, 4095, 4096, 4097)]
    # arbitrary bytes
    alpha = ["print('p');", "x", "=", "1", "+", "(", ")", "{", "}", "[", "]", ";", ":", ",", ".", "'", '"', "#", "\n", " ", "\\", "if ", "else ", "while ", "do ", "fun ", "return ", "break", "->", "?", "|", "not ", "none", "1.5", "\x01", "\x7f"]
    for _ in range(ctx.n(700, 12000)):
        texts.append("".join(r.choice(alpha) for _ in range(r.randint(1, 25))))
    S += [{"src": t} for t in texts]
    # truncations of programs at every kind of point
    for _ in range(ctx.n(40, 400)):
        p = gen.Gen(r, maxst=4, depth=2, closures=1).program()
        for _ in range(6):
            S.append({"src": P + p[:r.randrange(len(p) + 1)]})
    conform(ctx, S, chunk=4000)
    # texts beyond the specification's alphabet: no claim but that they end in a verdict
    raw = []
    for _ in range(ctx.n(400, 8000)):
        n = r.choice([1, 2, 5, 20, 100, 400])
        b = bytes(r.choice([r.randrange(256), r.randrange(32, 127), ord(r.choice("(){}[];'\"#\\"))]) for _ in range(n))
        if r.random() < .4:
            p = gen.Gen(r, maxst=4).program().encode()
            i = r.randrange(len(p))
            b = p[:i] + b[:3] + p[i + r.randint(0, 2):]
        raw.append({"src": b, "opts": {"max": 20000}})
    for s, a in zip(raw, nj.run(raw)):
        ctx.count["run"] += 1
        ctx.count["compared"] += 1
        if a["st"] in ("crash", "timeout", "lost", "boot", "harness"):
            ctx.violation("arbitrary text ended the host: %s %s\n%r" % (a["st"], a.get("log", "")[:300], s["src"][:300]), {"hex": s["src"].hex(), "observed": {k: a.get(k) for k in ("st", "why", "log")}})
        elif a["st"] == "err" and a["etype"] == "Syntax" and a["out"] != "":
            ctx.violation("part of a refused text ran: output %r" % a["out"], {"hex": s["src"].hex()})
    # far deeper nesting: refused as a whole, or run; never the end of the host
    raw = [(k, n, {"src": "print('ran');" + x, "opts": {"max": 20000}}) for n in ((20000, r.choice((9000, 70000))) if ctx.quick else (7000, 9000, 20000, 70000, 300000)) for k, x in abyss(n).items()]
    for (k, n, s), a in zip(raw, nj.run([s for _, _, s in raw], "rel")):
        ctx.count["run"] += 1
        ctx.count["compared"] += 1
        if a["st"] in ("crash", "timeout", "lost", "boot", "harness"):
            ctx.violation("a text nested %d levels deep (%s) ended the host: %s %s" % (n, k, a["st"], a.get("log", "")[:300]), {"kind": k, "levels": n, "observed": {k: a.get(k) for k in ("st", "why", "log")}})
        elif a["st"] == "err" and a["etype"] == "Syntax" and a["out"] != "":
            ctx.violation("part of a refused text ran: output %r" % a["out"], {"kind": k, "levels": n})
