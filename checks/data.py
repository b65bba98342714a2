"""Data: lists, maps, sharing, strings, buffers, printing, the library."""
import decimal, itertools, json, math, os
from fractions import Fraction
from lib import gen, nj, spec
from lib.common import conform, execute
from . import check
from .util import tpl, some, progs, DECL, VALUES, GCS

EVERY = ({}, {"gc": "every:3"}, {"gc": "rnd:7:5"})


@check("C10")
def lists(ctx):
    r = ctx.rng
    S = []
    idx = ["0", "1", "2", "3", "4", "-1", "4294967296", "4294967297", "-4294967296", "9223372036854775807", "1.0", "'0'", "none", "true", "[]"]
    S.append(tpl("l = <l>; return l[<i>], count(l), l;", l=["[]", "[5]", "[1, 'b', [3]]", "[none, none, none, none]"], i=idx))
    S.append(tpl("l = <l>; print('x'); l[<i>] = <v>; return l, count(l), keysof(l);", l=["[]", "[5]", "[1, 'b', [3]]"], i=idx, v=["'n'", "l"]))
    # every short history of operations
    ops = ["l[0] = 'z';", "l[count(l)] = 'e';", "append(l, 7);", "l[1] = l[0];", "l[count(l) - 1] = none;", "l[2] = 5;", "m = l;", "m[0] = 'm';", "l = [l];", "l[count(l)] = l[count(l)];"]
    S.append(tpl("l = [<i>]; m = l; <o> <o> <o> return l, m, count(l), count(m);" if not ctx.quick else "l = [<i>]; m = l; <o> <o> return l, m, count(l), count(m);", i=["", "1", "1, 2"], o=ops))
    # growth: every length around the capacities, elements kept in place
    for n in sorted(set(list(range(0, 20)) + [23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 96, 97, 127, 128, 129, 255, 256, 257])):
        if n > 130 and ctx.quick and r.random() < .6:
            continue
        S.append({"src": "l = []; i = 0; while i < %d: { l[i] = i * i; i = i + 1; } l[%d] = 'end'; return l, count(l), keysof(l), l[%d], l[%d], l[%d];" % (n, n, n // 2, n + 1, max(0, n - 1))})
        if n < 60:
            S.append({"src": "l = [%s]; append(l, 'end'); l[0] = [l[0]]; return l, count(l), l[%d];" % (", ".join(str(x) for x in range(n)), n - 1)})
            S.append({"src": "l = [%s]; m = [%s]; i = 0; while i < %d: { m[i] = l[%d - i]; i = i + 1; } return l, m;" % (", ".join("'s%d'" % x for x in range(n)), ", ".join("0" for x in range(n)), n, n - 1)})
    for n in some(r, [257, 300, 400, 511, 512, 513, 600, 767, 769, 1000], 4) + [1023 + r.randint(0, 1), 1025 + r.randint(0, 200)] + ([] if ctx.quick else [1537, 2049, 3000]):
        S.append({"src": "l = []; i = 0; while i < %d: { l[i] = i * 3; i = i + 1; } k = keysof(l); l[%d] = 'end'; l[%d] = 'mid'; return count(l), count(k), k[%d], k[%d], l[0], l[%d], l[%d], l[%d], k;".replace(", k;", ";") % (n, n, n // 2, n - 1, n // 3, n - 1, n // 2, n), "max": 60000})
        S.append({"src": "l = []; i = 0; while i < %d: { append(l, i); i = i + 1; } return l, keysof(l);" % n, "max": 90000} if n < 700 else {"src": "l = []; i = 0; while i < %d: { l[count(l)] = [i]; i = i + 1; } return l;" % n, "max": 90000})
    # every length in a window: list, keys, iteration all agree
    for n in (120, 250, 506, 1018) + (() if ctx.quick else (2042, 4090)):
        S.append({"src": "l = []; i = 0; while i < %d: { l[i] = i; i = i + 1; } r = []; while i < %d: { l[i] = i; i = i + 1; k = keysof(l); append(r, [count(l), count(k), k[i - 1], l[i - 1], k[i - 2], k[i / 2]]); } return r;" % (n, n + 14), "max": 200000})
    # nested growth and lists of lists
    S.append(tpl("l = []; i = 0; while i < <n>: { k = []; j = 0; while j <= i: { k[j] = [i, j]; j = j + 1; } l[i] = k; i = i + 1; } return l, l[<k>][<k>];", n=["1", "5", "9"], k=["0", "2", "8", "9"]))
    S.append(tpl("l = [[], [1], [[2]]]; l[<i>][<j>] = 'x'; return l, l[<i~>], l[2][0][0];", i=["0", "1", "2", "3"], j=["0", "1", "2"]))
    # algorithms
    for n in (1, 2, 5, 9, 17, 30):
        xs = [r.randint(-20, 20) for _ in range(n)]
        S.append({"src": "l = %s; n = count(l); i = 0; while i < n: { j = 0; while j < n - 1 - i: { if l[j] > l[j + 1]: { t = l[j]; l[j] = l[j + 1]; l[j + 1] = t; } j = j + 1; } i = i + 1; } return l;" % xs, "max": 60000})
        S.append({"src": "l = %s; i = 0; j = count(l) - 1; while i < j: { t = l[i]; l[i] = l[j]; l[j] = t; i = i + 1; j = j - 1; } s = 0; k = 0; while k < count(l): { s = s + l[k] * k; k = k + 1; } return l, s;" % xs})
    # random histories over several lists
    for _ in range(ctx.n(150, 2500)):
        src = "a = []; b = [1, 2, 3]; c = [a, b];\n"
        for _ in range(r.randint(3, 25)):
            v = r.choice("abc")
            src += r.choice(["%s[count(%s)] = %d;", "append(%s, [count(%s), %d]);", "if count(%s) > 2: %s[%d %% 3] = 'q';", "%s[count(%s)] = %d;", "x = %s; y = count(%s) + %d;"]) % (v, v, r.randint(0, 99)) + "\n"
            if r.random() < .2:
                src += r.choice(["a = [b, b];", "b = a;", "c[0] = [];", "c[1] = a[0];", "a[count(a)] = a[0];", "print(a, b, '\\n');", "b = [a[0], c[0]];"]) + "\n"
        S.append({"src": src + "return a, b, c;"})
    conform(ctx, S, schedules=EVERY, chunk=3000)


@check("C11")
def maps(ctx):
    r = ctx.rng
    S = []
    keys = ["1", "'1'", "1.0", "0", "-0.0", "0.0", "''", "'a'", "true", "false", "none", "-1", "2.5", "'\u00e9'", "9223372036854775807", "4294967296", "[1]", "{}", "int", "print", "F", "B", "any"]
    S.append(tpl(DECL + "m = {}; print('x'); m[<k>] = 'v'; m[<k>] = 'w'; return m, count(m), keysof(m), m[<k~>];", k=keys if not ctx.quick else some(r, keys, 20)))
    S.append(tpl(DECL + "m = {a: 1, 1: 'one', 0.0: 'z', none: 'n', true: 't'}; return m[<k>], count(m);", k=keys))
    S.append(tpl("m = {<k>: 1, <k>: 2, <k>: 3}; return m, count(m), keysof(m), m.a, m['1'], m[1];", k=["a", "'a'", "1", "'1'", "b", "1 + 0", "('a')", "2.5", "true"]))
    S.append(tpl("a = 'key'; m = {<e>: 5}; return keysof(m), m;", e=["a", "(a)", "a + ''", "'a'", "string.cat(a, 'z')", "1 + 1", "not true", "-3", "m2", "none", "true", "[a][0]", "a.b"]))
    ops = ["m.a = 1;", "m['b'] = 2;", "m[1] = m;", "m.a = m.b;", "n = m;", "n.c = 3;", "m = {};", "m[none] = 0;", "m[1] = none;", "m.b = {a: m.a};"]
    S.append(tpl("m = {<i>}; n = m; <o> <o> <o> return m.a, m.b, count(m), count(n), keysof(m), keysof(n), (m == none);" if not ctx.quick else
                 "m = {<i>}; n = m; <o> <o> return m.a, m.b, count(m), count(n), keysof(m), keysof(n);", i=["", "a: 9", "b: 1, a: 2"], o=ops))
    # lists and maps as keys: copied, found by nothing
    S.append(tpl("k = <k>; m = {a: 1}; m[k] = 'v'; x = m[<q>]; y = m.a; l = keysof(m); <w> print(m); return m, k, x, y, count(m), l, m.z;", k=["[]", "[1, 'x', none]", "{}", "{b: 2, 1: true}", "[[1], [1]]", "{p: [1], q: {r: 2.5}}", "[{}]"],
                 q=["none", "1", "'b'", "int", "print", "string"], w=["k[0] = 'new';", "l[1][0] = 'in';", "i = 0; while i < 20: { m[i] = i; i = i + 1; }", "m[m.a] = 3;"]))
    S.append(tpl(DECL + "k = <k>; m = {a: 1, (none): 2}; x = m[k]; y = {}[k]; m[k] = 'v'; return m, x, y, count(m);", k=["[F]", "[print]", "{a: int}", "{a: [1, B]}", "[1, [2, {z: any}]]", "string", "[string]", "[math.PI, -0.0]"]))
    S.append(tpl("a = []; b = {}; a[0] = <x>; a[1] = <y>; b.p = <y>; b.q = <x>; m = {c: 1}; x = m[a]; y = m[b]; print(x, y, '\n'); m[<k>] = 2; print(m); return m, count(m);", x=["1", "a", "b", "[a]", "{r: b}", "[b, a]"], y=["none", "a", "b", "[[b]]"], k=["a", "b", "[a]", "{k: b}", "[1, [2]]"]))
    # insertion order and every key present across growth, with every kind of key
    def key(i, kind):
        return {"int": str(i * 7), "neg": "-%d" % (i + 1), "str": "'k%d'" % i, "mul": str(i * 64), "pow": str(1 << (i % 62)), "half": "%d.5" % i, "big": str(i << 32), "mix": ["'%d'", "%d", "%d.5", "'x%d'"][i % 4] % i, "pre": "'%s'" % ("a" * i)}[kind]
    sizes = sorted(set(list(range(0, 14)) + [15, 16, 17, 23, 24, 25, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 96, 97, 128, 129, 140]))
    for kind in ("int", "neg", "str", "mul", "pow", "half", "big", "mix", "pre"):
        for n in (some(r, sizes, 12) if ctx.quick else sizes):
            if kind == "pow": n = min(n, 60)
            order = list(range(n))
            r.shuffle(order)
            ks = [key(i, kind) for i in order]
            S.append({"src": "m = {};\n" + "".join("m[%s] = %d;\n" % (k, j) for j, k in enumerate(ks)) + "l = [];\n" + "".join("l[%d] = m[%s];\n" % (j, k) for j, k in enumerate(ks))
                      + "return l, count(m), keysof(m), m['absent'], m[123456789], m;", "max": 20000})
    for n in (0, 1, 3, 6, 7, 8, 9, 12, 13, 17, 25, 33, 49, 65):
        S.append({"src": "m = {%s}; i = 0; while i < %d: { m[i] = [m[i]]; i = i + 1; } m[%d] = 'new'; return m, count(m), keysof(m);" % (", ".join("%d: 'v%d'" % (i, i) for i in range(n)), n, n)})
        S.append({"src": "m = {}; i = 0; while i < %d: { m[string.cat('k', toString(i))] = i; m[i] = m; i = i + 1; } s = 0; i = 0; while i < %d: { s = s + m[string.cat('k', toString(i))]; i = i + 1; } return s, count(m), keysof(m);" % (n, n), "max": 60000})
    for n in some(r, [200, 255, 256, 257, 300, 384, 385], 2) if ctx.quick else [257, 385, 512, 600, 769, 1025, 1537]:
        f = r.choice(["i * 5", "string.cat('k', toString(i))", "0 - i", "i * 1.5", "[i][0] * 1024"])
        S.append({"src": "m = {}; i = 0; while i < %d: { m[%s] = i; i = i + 1; } i = 0; s = 0; while i < %d: { if m[%s] != i: s = s + 1; i = i + 3; } k = keysof(m); return s, count(m), k[0], k[%d], k[%d], count(k), m['no'], m[%d];" % (n, f, n, f, n // 2, n - 1, n * 7 + 3), "max": 90000})
        S.append({"src": "m = {}; i = 0; while i < %d: { m[i] = [i]; m[i] = i; i = i + 1; } return m, keysof(m);" % (n // 2), "max": 90000})
    for n in (58, 122, 250) + (() if ctx.quick else (506, 1018)):
        S.append({"src": "m = {}; i = 0; while i < %d: { m[i * 3] = i; i = i + 1; } r = []; while i < %d: { m[i * 3] = i; i = i + 1; k = keysof(m); append(r, [count(m), count(k), k[i - 1], m[i * 3 - 3], k[i - 2], m[k[i / 2]]]); } return r;" % (n, n + 14), "max": 200000})
    # composite keys change neither with the value they were made from, at any depth, nor with what is read back
    S.append(tpl("a = <a>; k = <k>; m = {z: 0}; m[k] = 'v'; <w> l = keysof(m); <x> return l, m, count(m), keysof(m), k;", a=["[1]", "{0: 1}", "[[1], 2]"], k=["[a]", "{p: a}", "[0, a, a]", "[{q: [a]}]", "a"],
                 w=["a[0] = 2;", "a[1] = 'n';", "k[0] = 'o';", "a[0] = a;"], x=["", "l[1][0] = 9;", "a[0] = k;"]))
    # overwriting never adds a key nor moves it
    S.append(tpl("m = {a: 1, b: 2, c: 3}; m.<k> = 'x'; m.<k> = 'y'; m.d = 4; m.<k> = 'z'; return m, keysof(m), count(m);", k=["a", "b", "c", "d"]))
    # equal strings are the same key however they were built
    S.append(tpl("m = {}; m[<s>] = 1; return m['abc'], count(m), m[<s>], keysof(m);", s=["'abc'", "\"abc\"", "string.cat('a', 'bc')", "string.cat('ab', '', 'c')", "string.trim(' abc ')", "string.slice('xabcx', 1, 3)", "toString('abc')", "buffer.toString(buffer.fromString('abc'))"]))
    for n in (1, 7, 8, 15, 16, 31, 32, 63, 64, 100, 255, 256):
        S.append({"src": "m = {}; m['%s'] = 1; m['%sx'] = 2; m['x%s'] = 3; return m['%s'], m['%sx'], m['x%s'], count(m);" % (("a" * n,) * 6)})
    S.append(tpl("m = {}; m['<a>'] = 1; m['<b>'] = 2; return m['<a~>'], m['<b~>'], count(m);", a=["a", "\u00e9", "\U0001F600", "", " ", "A", "aa"], b=["a", "\u00e9", "\U0001F600", "", " ", "A", "aa"]))
    # random histories
    kk = ["a", "b", "name", "k1", "'x y'", "1", "2", "-5", "none", "true", "1.5", "''", "'\u00e9'", "1000000000000"]
    for _ in range(ctx.n(130, 2500)):
        src = "m = {}; n = {q: m};\n"
        for _ in range(r.randint(3, 30)):
            v = r.choice(["m", "m", "n"])
            k = r.choice(kk) if r.random() < .6 else str(r.randint(0, 40))
            k = "'%s'" % k if k[0].isalpha() and k not in ("none", "true") else k
            src += r.choice(["%s[%s] = %d;", "%s[%s] = [%d];", "%s[%s] = n.q; x = %d;", "y = %s[%s]; x = %d;"]) % (v, k, r.randint(0, 99)) + "\n"
        S.append({"src": src + "return keysof(m), keysof(n), m, count(n);"})
    conform(ctx, S, schedules=EVERY, chunk=3000)


@check("C12")
def sharing(ctx):
    r = ctx.rng
    S = []
    S.append(tpl("a = <v>; b = a; c = [a, b]; d = {x: a}; <m> return a, b, c, d;", v=["[1, 2]", "{k: 1}", "'st'", "5", "buffer.fromString('xy')", "[[1]]"],
                 m=["a[0] = 9;", "b[0] = 9;", "c[0][0] = 9;", "d.x[0] = 9;", "d.x.k = 9;", "a = 7;", "c[1] = 7;", "d.x = 7;", "a[0] = a[1];", "b[count(b)] = a;", "a.k = b; b.z = 1;", "c[0] = c;"]))
    S.append(tpl("fun f(p) { <m> return p; } a = [1, [2], {k: 3}]; b = a; x = f(a); return a, b, x;", m=["p[0] = 'q';", "p[1][0] = 'q';", "p[2].k = p;", "p = [0];", "q = p; q[3] = 4;", "p[count(p)] = p[1];"]))
    S.append(tpl("fun mk() { s = [0]; fun g() return s; return g, s; } g, s = mk(); h, t = mk(); <m> return g(), s, h(), t;", m=["s[0] = 1;", "g()[0] = 2;", "h()[1] = 3;", "t[0] = s;", "s = [5];"]))
    # slices of buffers share the bytes
    for n in (1, 4):
        o = [str(k) for k in sorted({0, 1, n - 1, n})]
        S.append(tpl("B = buffer.new(%d); S = buffer.sliceUp(B, <o>, <n>); T = buffer.sliceUp(S, <p>, <m>); <w>[0] = 65; <w>[<i>] = 66; U = buffer.toString(B); return B, S, T, U, [S, B], count(T);" % n, o=o[:3], n=o[1:], p=o[:2] if ctx.quick else o[:3], m=o[1:], w=["B", "S", "T"], i=["0", str(n - 1)]))
    S.append(tpl("B = buffer.fromString('abcdef'); l = [B, buffer.sliceUp(B, 0, 6), <x>]; i = 0; while i < 3: { l[i][i] = 65 + i; i = i + 1; } B = none; return l, buffer.toString(l[2]);", x=["buffer.sliceUp(B, 0, 6)", "buffer.sliceUp(buffer.sliceUp(B, 0, 6), 0, 6)", "buffer.sliceUp(buffer.sliceUp(B, 1, 5), 0, 5)", "B", "buffer.fromString(buffer.toString(B))"]))
    # a key is a copy of its own: later changes, at any depth, reach neither it nor what keysof gave
    S.append(tpl("a = <a>; m = {}; k = <k>; m[k] = a; <w> l = keysof(m); l[0][0] = 'k'; b = m; <x> return m, l, keysof(m), k, a, m[<q>];", a=["[1]", "{0: 1}"], k=["[a]", "{0: a}", "[[a]]", "[{p: a}, a]", "{p: [a]}", "a"],
                 w=["a[0] = 2;", "a[count(a)] = 3;", "k[0] = 4;", ""], x=["", "a[0] = m;", "b.z = l[0];"], q=["'z'", "0"]))
    for kinds in [x for d in (1, 2, 3) for x in itertools.product("LM", repeat=d)]:
        k = "a"
        for x in kinds:
            k = "[%s, 0]" % k if x == "L" else "{0: %s}" % k
        at = ["k" + "[0]" * d for d in range(len(kinds) + 1)]
        S.append(tpl("a = <a>; k = %s; m = {}; m[k] = a; l = keysof(m); <w><i> = 'w'; return m, l, k, keysof(m);" % k, a=["[1]", "{0: 1}", "[{}]"], w=at, i=["[0]", "[1]"]))
    for n in (40, 100, 257, 300):
        S.append({"src": "l = []; m = {}; s = [0]; i = 0; while i < %d: { l[i] = s; m[i] = s; i = i + 1; } l[%d][0] = 'x'; m[%d][1] = 'y'; s[2] = 'z'; return l[0], l[%d], m[%d], m[0], count(s), (l[%d][2] == m[%d][0]);" % ((n,) + tuple(r.randrange(n) for _ in range(6))), "max": 60000})
    # each evaluation of a literal makes a new object
    S.append(tpl("fun mk(<p>) { return <e>; } a = mk(); b = mk(); a[0] = 'only a'; return a, b;", p=["", "d = [7, 8]"], e=["[1, 2]", "{0: 1}", "buffer.new(2)" if False else "[[], 0]", "[{}]"]))
    S.append(tpl("fun f(d = <d>) { d[0] = 'set'; return d; } x = f(); y = f(); x[1] = 'x'; return x, y, f([1, 2]);", d=["[0, 0]", "{0: 5}"]))
    S.append(tpl("l = []; i = 0; while i < 3: { l[i] = <e>; i = i + 1; } l[0][0] = 'changed'; return l;", e=["[0]", "{0: i}", "[i, [i]]"]))
    # cycles keep their identity
    S.append(tpl("a = [1]; b = {k: a}; a[1] = <x>; a[2] = <x>; b.s = <x>; return a, b;", x=["a", "b", "[a]", "{z: b}", "a[1]", "b.k"]))
    S.append({"src": "a = []; i = 0; while i < 12: { a = [a, a]; i = i + 1; } return count(a);"})
    # the object graph survives collection with the same shape
    for _ in range(ctx.n(220, 3500)):
        n = r.randint(2, 9)
        src = "".join("o%d = %s; " % (i, r.choice(["[]", "{}", "[%d]" % i, "{id: %d}" % i])) for i in range(n))
        for _ in range(r.randint(2, 22)):
            a, b = r.randrange(n), r.randrange(n)
            k = r.random()
            if k < .35: src += "if type(o%d) == List: o%d[count(o%d)] = o%d; else o%d[%d] = o%d;\n" % (a, a, a, b, a, r.randint(0, 5), b)
            elif k < .6: src += "if type(o%d) == Map: o%d.%s = o%d; else o%d[0] = o%d;\n" % (a, a, r.choice("pqr"), b, a, b) if r.random() < .5 else "if type(o%d) == Map: o%d.%s = o%d;\n" % (a, a, r.choice("pqr"), b)
            elif k < .75: src += "o%d = o%d;\n" % (a, b)
            elif k < .9: src += "o%d = [o%d, %d];\n" % (a, b, r.randint(0, 9))
            else: src += "if count(o%d) > 0: if type(o%d) == List: o%d[0] = o%d[count(o%d) - 1];\n" % ((a,) * 5)
        S.append({"src": src + "return %s;" % ", ".join("o%d" % i for i in range(min(n, 8)))})
    conform(ctx, S, schedules=EVERY, chunk=3000)


U = ["", "a", "ab", "hello world", "\u00e9", "\u00e9t\u00e9", "\u4e2d\u6587\u5b57", "\U0001F600", "a\U0001F600b\u00e9", "\u07ff\u0800", "\uffff\U00010000", "x" * 31, "\u20ac" * 9, " sp ", "0", "\x7f\u0080", "\U0010ffff", "e\u0301"]


@check("C13")
def strings(ctx):
    r = ctx.rng
    S = []
    Q = [gen.q(s) for s in U]
    S.append(tpl("s = <s>; return s, count(s), s[<i>];", s=Q, i=["0", "1", "2", "3", "8", "30", "31", "-1", "none", "'0'", "1.0", "4294967296"]))
    S.append(tpl("s = <s>; l = []; i = 0; while i < count(s): { l[i] = [s[i], string.ord(s[i])]; i = i + 1; } return l, keysof(s);", s=Q))
    S.append(tpl("return (<a> == <b>), (<a~> != <b~>), {<a~>: 1}[<b~>];".replace("{<a~>: 1}[<b~>]", "(count(<a~>) == count(<b~>))"), a=Q, b=Q))
    S.append(tpl("s = string.cat(<a>, <a>, <a>); return s, count(s);", a=Q if not ctx.quick else some(r, Q, 8)))
    S.append(tpl("return string.cat(<a>);", a=["", "'a'", "'a', ''", "'', '', ''", "'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k'", "'a', 1", "none", "'\u00e9', '\U0001F600'"]))
    # growth of concatenations
    for n in (0, 1, 2, 3, 10, 50, 100, 200):
        S.append({"src": "s = ''; i = 0; while i < %d: { s = string.cat(s, 'ab\u00e9'); i = i + 1; } return s, count(s), s[%d], s[%d];" % (n, n, max(0, 3 * n - 1)), "max": 20000})
    # any number of parts of any length
    for k in range(0, 14):
        for w in (1, r.choice([255, 256, 300, 341]), r.choice([500, 512, 585, 700])):
            S.append({"src": "p = '%s'; s = string.cat(%s); return count(s), s, string.slice(s, %d, %d);" % ("".join(r.choice("abcd\u00e9") for _ in range(w)), ", ".join(["p"] * k), max(0, k * w // 2), min(4, k * w // 3))})
    for n in (9, 11, 12, 13):
        S.append({"src": "s = 'abc\u00e9'; i = 0; while i < %d: { s = string.cat(s, s); i = i + 1; } t = string.cat('<', s, s, '>'); M = {}; M[s] = 1; M[t] = 2; return count(s), count(t), s[%d], s[%d], t[%d], (s == t), (s == string.slice(t, 1, %d)), M[s], M[t], string.slice(t, %d, 5), count(string.trim(string.cat(' ', s, ' ')));" % (n, 4 << n - 1, (4 << n) - 1, (8 << n) + 1, 4 << n, 4 << n), "max": 20000})
    # positions in long strings of mixed widths
    for n in (1, 5, 16, 33, 100, 300):
        t = "".join(r.choice(["a", "\u00e9", "\u4e2d", "\U0001F600", "z"]) for _ in range(n))
        ix = sorted({0, n - 1, n // 2, n // 3, max(0, n - 2)})
        S.append({"src": "s = '%s'; return count(s), [%s], s[%d], s[-1];" % (t, ", ".join("s[%d]" % i for i in ix), n)})
    # slices
    S.append(tpl("return string.slice(<s>, <a>, <n>);", s=[gen.q(s) for s in ("", "abc", "a\u00e9b", "\U0001F600x", "\u4e2d\u6587")], a=["none", "0", "1", "2", "3", "4", "5", "6", "7", "-1"], n=["none", "0", "1", "2", "3", "4", "6", "-1"]))
    S.append(tpl("return string.trim(<s>), count(string.trim(<s~>));", s=[gen.q(s) for s in ("", " ", "   ", "a", " a", "a ", " a b ", "\t a\n", "\r\n", "\u00e9 ", " \u00e9", "  \U0001F600  ", "a  b", "  x", "\n\n\t", " a\u00e9 ")]))
    S.append(tpl("return string.ord(<s>), (string.chr(string.ord(<s~>)) == <s~>[0]);", s=[q for q in Q if len(q) > 2]))
    S.append(tpl("c = string.chr(<n>); return c, count(c), string.ord(c);", n=[str(ord(c)) for c in sorted({c for u in U for c in u})]))
    S.append(tpl("return string.toInt(<s>);", s=["'0'", "'7'", "'42'", "'007'", "''", "'-1'", "'1a'", "'a1'", "' 1'", "'9223372036854775807'", "'9223372036854775808'", "'92233720368547758070'", "'18446744073709551617'", "'1 '", "'\u0661'", "'2147483648'", "'4294967297'"]))
    # characters that have no literal of their own, at every place of every operation
    S.append(tpl("z = string.chr(<n>); s = string.cat('a', z, 'b'); t = string.cat(string.cat(z, s), 'c', z); M = {}; M[s] = 1; M[t] = 2; M[z] = 3; return s, t, count(s), count(t), [s[0], s[1], s[2]], string.ord(t), string.slice(s, 1, none), string.slice(s, 0, 2), string.trim(t), (s == 'a'), (s == string.cat('a', z, 'b')), M[s], M[t], keysof(M), toString([s, t]), (t == string.cat(z, s, 'c', z));",
                 n=["0", "1", "7", "8", "10", "11", "12", "13", "27", "31", "32", "127", "128", "133", "160", "255", "8232", "65279", "65533"]))
    S.append(tpl("z = string.chr(<n>); print(z, '|', 'x', string.cat(z, 'y', z), [z], {a: z}, '\\n'); print(string.cat('p', z, z, 'q')); b = buffer.fromString(string.cat('a', z, 'b')); return count(b), b, buffer.toString(b), buffer.toString(buffer.sliceUp(b, 1, 1));", n=["0", "1", "9", "13", "31", "127", "128"]))
    S.append(tpl("z = string.chr(0); fun f(x) return string.cat(x, z, x); a = f('<a>'); b = f(f(<b>)); return a, b, count(a), count(b), (a == b), (a == '<a~>'), string.slice(b, 1, 1), string.trim(string.cat(' ', a, ' '));", a=["", "a", "\u00e9", " "], b=["''", "'q'", "a", "'\U0001F600'"]))
    S.append(tpl("s = 'abc'; t = s; print('x'); <m> return s, t;", m=["s[0] = 'z';", "s = 'q';", "s.k = 1;", "t = string.cat(s, t);"]))
    for _ in range(ctx.n(200, 3500)):
        src = "s = %s; t = %s; k = 0;\n" % (gen.q(r.choice(U)), gen.q(r.choice(U)))
        for _ in range(r.randint(2, 10)):
            src += r.choice(["s = string.cat(s, t);", "t = string.cat('<', s, '>');", "s = string.trim(s);", "if count(s) > 0: t = string.cat(t, s[count(s) - 1]);", "if count(t) > 1: s = string.cat(t[1], s, t[0]);",
                             "k = k + count(s) * 2 + count(t);", "if s == t: k = k + 1000; else k = k + 1;", "s = string.slice(t, none, none);", "t = toString(k);", "s = string.cat(s, toString([s, k]));", "if count(s) > 40: s = s[3];", "print(s, '|', t, '\\n');", "t = %s;" % gen.q(r.choice(U))]) + "\n"
        S.append({"src": src + "return s, t, k, count(s), count(t);"})
    conform(ctx, S, schedules=GCS, chunk=3000)


@check("C14")
def buffers(ctx):
    r = ctx.rng
    S = []
    idx = ["0", "1", "4", "5", "-1", "4294967296", "none", "'0'", "1.0"]
    S.append(tpl("b = <b>; return b[<i>], count(b), b;", b=["buffer.new(0)", "buffer.new(5)", "buffer.fromString('h\u00e9l')", "buffer.sliceUp(buffer.fromString('abcdefg'), 1, 5)"], i=idx))
    S.append(tpl("b = <b>; print('x'); b[<i>] = <v>; return b, b[<i~>];", b=["buffer.new(5)", "buffer.sliceUp(buffer.fromString('abcdefg'), 1, 5)"], i=idx, v=["0", "1", "127", "128", "255", "256", "-1", "4294967296", "4294967301", "'a'", "none", "2.5", "-9223372036854775807"]))
    S.append(tpl("b = buffer.fromString('abcdefgh'); s = buffer.sliceUp(b, <o>, <n>); t = buffer.sliceUp(s, <o>, <n>); return b, s, t, count(s), count(t);", o=["0", "1", "2", "5", "7", "8"], n=["0", "1", "3", "6", "8", "9"]))
    # integers that don't fit in 32 bits
    wide = ["2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967299", "-4294967296", "-4294967295", "-4294967293", "-2147483648", "8589934593", "18014398509481986", "9223372036854775807", "-9223372036854775807", "-1"]
    S.append(tpl("b = buffer.fromString('abcdefgh'); s = buffer.sliceUp(b, <o>, <n>); s[0] = 65; return b, s, count(s);", o=wide, n=["0", "1", "3"]))
    S.append(tpl("b = buffer.fromString('abcdefgh'); s = buffer.sliceUp(b, <o>, <n>); s[0] = 65; return b, s, count(s);", o=["0", "1", "3"], n=wide))
    S.append(tpl("b = buffer.fromString('abcdefgh'); s = buffer.sliceUp(b, <o>, <n>); return count(s), s;", o=some(r, wide, 7), n=some(r, wide, 7)))
    S.append(tpl("b = <b>; return b[<i>];", b=["buffer.fromString('abcdefgh')", "buffer.sliceUp(buffer.fromString('abcdefg'), 1, 5)"], i=wide))
    S.append(tpl("b = <b>; b[<i>] = <v>; return b;", b=["buffer.fromString('abcdefgh')", "buffer.sliceUp(buffer.fromString('abcdefg'), 1, 5)"], i=["0", "2"], v=wide))
    S.append(tpl("b = <b>; b[<i>] = 65; return b;", b=["buffer.fromString('abcdefgh')", "buffer.sliceUp(buffer.fromString('abcdefg'), 1, 5)"], i=wide))
    # writes through any alias are seen through all of them
    S.append(tpl("b = buffer.fromString('abcdefgh'); s = buffer.sliceUp(b, 2, 5); t = buffer.sliceUp(s, 1, 3); u = buffer.sliceUp(b, 0, 4); <w> <w> return b, s, t, u;",
                 w=["b[3] = 1;", "s[1] = 2;", "t[0] = 3;", "u[3] = 4;", "b[7] = 5;", "t[2] = 6;", "s[4] = 7;", "b = 0;", "s = t;", "t[3] = 8;"]))
    S.append(tpl("fun f(x) { x[0] = 9; return buffer.sliceUp(x, 0, 2); } b = <b>; c = f(b); c[1] = 8; d = [b, {k: c}]; d[1].k[0] = 7; return b, c, d;", b=["buffer.new(3)", "buffer.fromString('xyz')"]))
    for n in (0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 255, 256, 300):
        S.append({"src": "b = buffer.new(%d); i = 0; while i < %d: { b[i] = (i * 37) %% 256; i = i + 1; } return b, count(b), b[%d];" % (n, n, n), "max": 20000})
    for n in (511, 4095, 4096, 4097, 40000, 65535, 65536, 65537, 70000, 131072):
        o = r.choice([1, n // 2, n - 3, n - 257])
        S.append({"src": "b = buffer.new(%d); b[%d] = 200; b[%d] = 201; b[0] = 202; s = buffer.sliceUp(b, %d, %d); s[%d] = 203; return count(b), b[%d], b[%d], b[0], b[1], count(s), s[0], b[%d];" % (n, n - 1, n // 2, o, n - o, n - o - 1, n - 1, n // 2, n - 2)})
        S.append({"src": "b = buffer.new(%d); return b[%d];" % (n, n)})
        S.append({"src": "b = buffer.new(%d); s = buffer.sliceUp(b, 1, %d); print('x'); return s[%d], buffer.sliceUp(b, %d, 2);" % (n, n - 2, n - 3, n - 1)})
    # slices outlive the buffer they come from
    S.append(tpl("fun mk(n) { b = buffer.fromString(n); b[0] = 65; return buffer.sliceUp(b, <o>, 3), b; } s, b = mk('hello'); b = none; i = 0; while i < 25: { x = buffer.new(64); x[0] = i; i = i + 1; } s[1] = 66; t = buffer.sliceUp(s, 1, 2); s = none; y, z = mk('world'); return t, y, z;", o=["0", "1", "2"]))
    for _ in range(ctx.n(220, 3500)):
        src = "b0 = buffer.new(%d); b1 = buffer.fromString('%s'); b2 = b0;\n" % (r.randint(1, 12), "abc\u00e9"[: r.randint(1, 4)])
        for _ in range(r.randint(3, 16)):
            i, j = r.randrange(3), r.randrange(3)
            k = r.random()
            if k < .4: src += "if count(b%d) > %d: b%d[%d] = %d;\n" % (i, (p := r.randint(0, 5)), i, p, r.randint(0, 255))
            elif k < .75:
                o, n = r.randint(0, 3), r.randint(0, 4)
                src += "if count(b%d) >= %d and count(b%d) > %d: b%d = buffer.sliceUp(b%d, %d, %d);\n" % (i, o + n, i, o, j, i, o, n)
            elif k < .85: src += "b%d = buffer.new(%d);\n" % (i, r.randint(0, 9))
            else: src += "b%d = b%d;\n" % (i, j)
        S.append({"src": src + "return b0, b1, b2, count(b0);"})
    conform(ctx, S, schedules=EVERY, chunk=3000)


@check("C15")
def utf8(ctx):
    r = ctx.rng
    S = []
    Q = [gen.q(s) for s in U]
    S.append(tpl("b = buffer.fromString(<s>); t = buffer.toString(b); return b, count(b), t, (t == <s~>), count(t);", s=Q))
    # all short byte sequences over the boundary bytes
    B = [0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfe, 0xff]
    def lit(bs):
        return "b = buffer.new(%d); %s x, e = buffer.toString(b); return x, e, b;" % (len(bs), " ".join("b[%d] = %d;" % (i, v) for i, v in enumerate(bs)))
    def points(bs):      # the specification must know the characters that appear
        try: return bytes(bs).decode("utf-8")
        except UnicodeDecodeError: return ""
    seqs = [[a] for a in range(256)] if not ctx.quick else [[a] for a in B]
    seqs += [[a, b] for a in B for b in B]
    three = [[a, b, c] for a in (0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xc2, 0x41, 0xf0, 0xf4) for b in (0x41, 0x7f, 0x80, 0x8f, 0x9f, 0xa0, 0xbf, 0xc2) for c in (0x41, 0x80, 0xbf, 0xc2)]
    four = [[a, b, c, d] for a in (0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xe1) for b in (0x80, 0x8f, 0x90, 0xbf, 0x41, 0xc2) for c in (0x80, 0xbf, 0x41) for d in (0x80, 0xbf, 0x41)]
    seqs += some(r, three, 120) if ctx.quick else three
    seqs += some(r, four, 120) if ctx.quick else four
    for _ in range(ctx.n(120, 3000)):
        bs = list("".join(r.choice(["a", "\u00e9", "\u4e2d", "\U0001F600", "\u07ff"]) for _ in range(r.randint(1, 5))).encode())
        k = r.random()
        if k < .3: del bs[r.randrange(len(bs))]
        elif k < .6: bs[r.randrange(len(bs))] = r.choice(B)
        elif k < .8: bs.insert(r.randrange(len(bs) + 1), r.choice(B))
        seqs.append(bs)
    for bs in seqs:
        S.append({"src": lit(bs) + " # " + points(bs).replace("\n", "").replace("\0", "")})
    S.append(tpl("b = buffer.fromString(<s>); s = buffer.sliceUp(b, <o>, <n>); x, e = buffer.toString(s); return x, e;", s=[gen.q("a\u00e9\u4e2d\U0001F600z")], o=[str(i) for i in range(10)], n=[str(i) for i in range(6)]))
    # encoding keeps every code point; decoding finds it again
    for c in sorted({0, 1, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff} | {r.randrange(1, 0xd800) for _ in range(ctx.n(40, 2000))} | {r.randrange(0xe000, 0x110000) for _ in range(ctx.n(40, 2000))}):
        S.append({"src": "s = string.chr(%d); b = buffer.fromString(string.cat('<', s, '>')); t = buffer.toString(b); return s, b, t, count(t), string.ord(t[1]), t[2]; # %s" % (c, chr(c) if c not in (0, 10, 13) else "")})
    # surrogates and numbers past the last code point aren't characters
    S.append(tpl("s = string.chr(<n>); return s;", n=[str(n) for n in [0xd800, 0xd801, 0xdabc, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x1fffff, -1, 1 << 31, 1 << 32, 1 << 40] + [r.randrange(0xd800, 0xe000) for _ in range(6)]]))
    # characters in their two neighbouring lengths: every overlong form is refused
    for c in [0, 0x2f, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0xd7ff, 0xd800, 0xdfff, 0xe000] + [r.randrange(0, 0x10000) for _ in range(ctx.n(20, 600))]:
        for bs in ([0xc0 | c >> 6, 0x80 | c & 63] if c < 0x800 else None, [0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63], [0xf0, 0x80 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63]):
            if bs: S.append({"src": lit([0x3c] + bs + [0x3e]) + " # " + points(bs).replace("\n", "").replace("\r", "").replace("\0", "")})
    # strings of the program text itself
    S.append(tpl("s = '<a><b><a>'; return s, count(s), buffer.fromString(s), s[1];", a=list({c for u in U for c in u})[:14], b=["\u00e9", "\U0001F600", "\u0800"]))
    conform(ctx, S, chunk=4000)


@check("C16")
def printing(ctx):
    r = ctx.rng
    S = []
    S.append(tpl(DECL + "x = <v>; print(x); print([x], {k: x}, '\\n'); print(x, ' ', x);", v=VALUES + ["[[]]", "[{}]", "{a: [], b: {}}", "['a', 'b c']", "{'k k': 'v'}", "[1.5, 2]", "{none: none, true: 1, 2.5: []}", "[int, ?int, (int | String)]", "[print]", "[B, F]", "buffer.new(0)", "buffer.fromString('\u007fz')"]))
    S.append(tpl("print(<n>);", n=["0.0", "-0.0", "1.0", "0.5", "0.25", "0.125", "0.375", "2.675", "100.015625", "-0.015625", "-1.5", "1234.5", "99.984375", "0.984375", "9999.0", "3.0", "-0.25", "12.0", "65536.5"]))
    S.append(tpl("print(<n>, -<n~>);", n=["0", "7", "10", "99", "100", "1000", "999999", "2147483647", "2147483648", "4294967295", "4294967296", "1000000000000000000", "9223372036854775807"]))
    # cycles
    S.append(tpl("a = [1]; b = {k: a}; c = [a, b]; a[1] = <x>; b.z = <y>; print(a, b, c); print([a, a], {p: b, q: b});", x=["a", "b", "c", "[a]", "{w: a}", "2"], y=["a", "b", "c", "[b, [b]]", "3"]))
    S.append({"src": "a = []; print(a); a[0] = a; print(a); a[1] = [a]; print(a); b = {}; b.b = b; print(b); a[2] = b; b.a = a; print(a, b);"})
    # shared but acyclic structures are printed in full each time
    S.append(tpl("x = <x>; l = [x, [x, x], {k: x}]; print(l); return count(l);", x=["[1]", "{a: 1}", "[[]]"]))
    # sizes and depths
    for n in (0, 1, 2, 10, 40, 100):
        S.append({"src": "l = []; i = 0; while i < %d: { l[i] = i; i = i + 1; } print(l, l);" % n})
        S.append({"src": "l = 'x'; i = 0; while i < %d: { l = [l]; i = i + 1; } print(l); m = 1; i = 0; while i < %d: { m = {k: m}; i = i + 1; } print(m);" % (min(n, 40), min(n, 40))})
        S.append({"src": "m = {}; i = 0; while i < %d: { m[i * 3] = [i]; i = i + 1; } print(m);" % n})
        S.append({"src": "s = '%s'; print(s, [s], s);" % ("\u00e9x" * n)})
        S.append({"src": "b = buffer.new(%d); i = 0; while i < %d: { b[i] = i; i = i + 1; } print(b);" % (n, n)})
    for n in some(r, [127, 128, 129, 255, 256, 258, 300, 400, 511, 513, 600], 4) + [257, r.randint(1023, 1030)] + ([] if ctx.quick else [2049, 4100]):
        S.append({"src": "l = []; i = 0; while i < %d: { l[i] = i; i = i + 1; } print(l); print([l, 'x'], l[0]);" % n, "max": 90000})
        S.append({"src": "m = {}; i = 0; while i < %d: { m[i] = 's'; i = i + 1; } print(m);" % min(n, 600), "max": 90000})
        S.append({"src": "b = buffer.new(%d); b[%d] = 255; b[0] = 16; print(b); print([b, 1]);" % (n, n - 1), "max": 90000})
        S.append({"src": "s = '%s'; print(s); print([s, s], {k: s});" % ("".join(r.choice("abc\u00e9\u4e2d") for _ in range(n)))})
    for n in (10, 12, 13):
        S.append({"src": "s = 'abc\u00e9'; i = 0; while i < %d: { s = string.cat(s, s); i = i + 1; } print(s); print([s], '.');" % n})
    S.append(tpl("b = buffer.new(3); b[0] = <v>; b[2] = <v>; print(b);", v=["0", "1", "9", "10", "15", "16", "127", "128", "160", "255"]))
    S.append(tpl("print(<a>); print(); print(<a>);", a=["", "1", "1, 2", "'a', 'b'", "none, true, 'x', [1], {}", "'', '', ''", "1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12"]))
    S.append(tpl("x = <x>; print(?x, ';', (x | int), ';', (?x | ?int), ';', [?x]);", x=["int", "String", "(int | float)", "?None", "any", "[int, String]", "{a: int}", "none", "'s'", "3"]))
    for _ in range(ctx.n(200, 3500)):
        S.append({"src": gen.Gen(r, prints=6, maxst=8, depth=3).program()})
    for _ in range(ctx.n(80, 1500)):      # random graphs printed
        n = r.randint(1, 5)
        src = "".join("o%d = %s; " % (i, r.choice(["[]", "{}", "['e%d']" % i, "{n: %d}" % i])) for i in range(n))
        for _ in range(r.randint(1, 8)):
            a, b = r.randrange(n), r.randrange(n)
            src += "if type(o%d) == List: o%d[count(o%d)] = o%d; else o%d.%s = o%d;\n" % (a, a, a, b, a, r.choice("pq"), b)
        S.append({"src": src + "print(%s);" % ", '\\n', ".join("o%d" % i for i in range(n))})
    conform(ctx, S, schedules=GCS, chunk=3000)


@check("C17")
def library(ctx):
    r = ctx.rng
    S = []
    ints = ["0", "1", "9", "10", "11", "99", "100", "101", "999", "1000", "12345", "2147483648", "4294967296", "999999999999999999", "1000000000000000000", "9223372036854775807"]
    S.append(tpl("return toString(<n>), toString(-<n~>), count(toString(<n~>));", n=ints + [str(r.getrandbits(r.randint(1, 62))) for _ in range(ctx.n(25, 400))]))
    S.append({"src": "m = -9223372036854775807 - 1; return toString(m), toString([m]), toString({m: m}), toString(m + 1);"})
    flt = ["0.0", "-0.0", "0.25", "0.75", "-0.25", "1.0", "0.5", "-1.5", "0.1", "0.29", "0.3", "0.01", "0.09", "0.999", "-1.996", "99.996", "9.994", "0.004", "-0.004", "0.006", "1000.0", "10.01", "123456789012.34", "4611686018427387000.0", "0.0625", "0.9375", "7.07", "19.99", "-100.5"]
    S.append(tpl("x = <n>; return toString(x), toString([x, -x]), toString({x: x}), count(toString(x));", n=flt + ["%d.%0*d" % (r.randrange(10 ** r.randint(0, 9)), k, r.randrange(10 ** k)) for k in [r.randint(1, 5) for _ in range(ctx.n(40, 1000))]]))
    S.append(tpl("x = <n>; print(toString(x)); return toString(x / 4), toString(x / 16), toString(-x / 64), toString(x / 3.0);", n=["%d.0" % r.randrange(10 ** r.randint(1, 6)) for _ in range(ctx.n(20, 400))]))
    S.append(tpl(DECL + "return toString(<v>);", v=VALUES + ["[1, [2, 'x', []]]", "{a: [1], b: {c: none}}", "['q']", "[none, true]" if False else "[none]", "[[], {}]", "{1: 2, none: 'z'}"]))
    S.append(tpl("m = {v: 3, fun toString(self) { return string.cat('<', toString(self.v), '>'); }}; n = {toString: <t>, a: 1}; return toString(m), toString([m, m]), toString(m, <f>), toString(n);".replace(", toString(m, <f>)", ""), t=["5", "none", "'x'"]))
    S.append(tpl("fun toS(self) return <r>; m = {toString: toS, x: 1}; return toString(m), toString({k: m});", r=["'own'", "''", "self.x"]))
    S.append(tpl("return min(<a>, <b>), max(<a~>, <b~>);", a=["1", "2", "-3", "2.5", "'a'", "none"], b=["1", "2", "-3", "2.5", "'a'", "none"]))
    S.append(tpl("return abs(<a>);", a=["0", "5", "-5", "2.5", "-2.5", "-0.0", "'a'", "none", "9223372036854775807", "(-9223372036854775807)"]))
    S.append(tpl(DECL + "return isCallable(<v>);", v=VALUES))
    S.append(tpl("l = <l>; x = append(l, <v>); append(l, <v>); return l, x, count(l);", l=["[]", "[1]", "[[], {}]"], v=["5", "l", "none", "[6]"]))
    S.append(tpl("return integerFromDigit(<c>);", c=["'%d'" % i for i in range(10)] + ["'a'", "''", "'/'", "':'", "'12'", "5", "'\u0661'"]))
    # iterators
    S.append(tpl("s = <s>; it = makeIterator(s); r = []; v, k, i = it->next(); while i != none: { append(r, [v, k, i]); v, k, i = it->next(); } w, x, y = it->next(); return r, w, x, y, count(r);",
                 s=["[]", "[5]", "[1, 2, 3]", "['a', none, [1]]", "{}", "{a: 1}", "{b: 2, a: 1, c: none}", "{1: 'x', none: 'y', 'z': 'w'}", "[[], {}]", "none", "5", "'abc'"]))
    S.append(tpl("m = {n: 0, fun iter(self) { return {c: 0, lim: <n>, fun next(it) { if it.c == it.lim: return none; it.c = it.c + 1; return it.c * 10; }}; }}; it = makeIterator(m<f>); r = []; x = it->next(); k = 0; while x != none and k < 9: { append(r, x); x = it->next(); k = k + 1; } return r;", n=["0", "1", "4"], f=["", ", true", ", none"]))
    S.append(tpl("l = [1, 2]; a = makeIterator(l); b = makeIterator(l); x = a->next(); <m> y = a->next(); z = b->next(); w = a->next(); return x, y, z, w, l;", m=["", "l[0] = 'q';", "append(l, 3);", "l = [];"]))
    # iterating a collection that changes meanwhile: the elements it had at first, whatever they are now
    S.append(tpl("c = <c>; it = makeIterator(c); r = []; i = 0; while i < 7: { v, k, n = it->next(); append(r, [v, k, n]); <m> i = i + 1; } return r, c;", c=["[]", "[1, 2]", "[[], 'x', none]", "{}", "{a: 1, 0: 2}"],
                 m=["c[i] = 'new';", "c[count(c)] = i;", "if type(c) == Map: c.z = i;", "if count(c) > 0: c[count(c) - 1] = 'last';", "c = [9];", "print(n);", "if i == 1: it = makeIterator(c);"]))
    S.append(tpl("return <a> == <b>;", a=["chr", "ord", "Numeric", "Collection"], b=["none", "int"]))
    S.append(tpl("x = <v>; return istypeof(Numeric, x), istypeof(Callable, x), istypeof(Collection, x), istypeof(Func, x), istypeof(NFunc, x);", v=["1", "2.5", "print", "toString", "[]", "{}", "'s'", "none", "int"]))
    S.append(tpl("r = []; s = <s>; k = keysof(s); i = 0; while i < count(k): { append(r, [k[i], s[k[i]]]); i = i + 1; } return r;", s=["[]", "[7, 8]", "{a: 1, b: 2}", "'h\u00e9'", "buffer.fromString('ab')", "{}"]))
    for n in some(r, [40, 100, 129, 200, 257, 300], 3):
        S.append({"src": "c = %s; i = 0; while i < %d: { c[i] = i * i; i = i + 1; } it = makeIterator(c); s = 0; k = 0; v, q, j = it->next(); while j != none: { s = s + v * (k + 1); k = k + 1; last = q; v, q, j = it->next(); } return s, k, last, count(toString(c)), toString(c);" % (r.choice(["[]", "{}"]), n), "max": 200000})
    # anything that fits in a container prints through toString the same way its parts do
    for _ in range(ctx.n(150, 2500)):
        g = gen.Gen(r, types=0, depth=2)
        def val(d):
            k = r.random()
            if d == 0 or k < .4: return r.choice([str(r.randint(0, 10 ** r.randint(1, 18))), "-%d" % r.randint(0, 999), gen.q(r.choice(gen.STR)), "none", "int", "print"])
            if k < .7: return "[%s]" % ", ".join(val(d - 1) for _ in range(r.randint(0, 4)))
            return "{%s}" % ", ".join("%s: %s" % (a, val(d - 1)) for a in r.sample(["a", "b", "'k k'", "1", "none"], r.randint(0, 3)))
        v = val(2)
        S.append({"src": "x = %s; s = toString(x); return s, count(s);" % v, "max": 20000})
    S += progs(ctx, ctx.n(50, 1000), closures=.2)
    conform(ctx, S, schedules=({},) if ctx.quick else GCS, chunk=3000)


@check("C39")
def maths(ctx):
    r = ctx.rng
    S = []
    fs = ["0.0", "-0.0", "0.5", "-0.5", "1.0", "-1.0", "1.5", "2.0", "2.5", "-2.5", "0.015625", "-0.015625", "100.0", "4.0", "9.0", "2.25", "16.0", "255.984375", "-3.0", "1024.0"]
    S.append(tpl("return math.<f>(<x>);", f=["floor", "ceil"], x=fs + ["1", "'a'", "none", ""]))
    S.append(tpl("return math.<f>(<x>);", f=["sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10"], x=["0.0", "1.0", "-0.0", "4.0", "9.0", "2.25", "0.25", "16.0", "1", "none", "'x'"]))
    S.append(tpl("return math.pow(<x>, <y>);", x=fs, y=["0.0", "1.0", "2.0", "2", "none"]))
    S.append(tpl("a = <x>; b = <y>; return (a + b), (a - b), (a * b), (a < b), (a <= b), (a == b), (a != b), -a;", x=fs, y=fs if not ctx.quick else some(r, fs, 8)))
    S.append(tpl("a = <x>; b = <y>; return a / b;", x=fs, y=["0.5", "2.0", "-4.0", "0.25", "1.0", "8", "0.0", "0"]))
    S.append(tpl("return (1.0 * <i>), type(1.0 * <i~>), (<i~> + 0.5);", i=["0", "7", "-3", "1000", "65536"]))
    # any numbers: large and inexact ones, ints of every size with floats
    big = ["16777217", "33554431", "9007199254740991", "9007199254740993", "9223372036854775807", "-9223372036854775807", "4611686018427387905", "123456789012345678", "3", "-7", "0"]
    odd = ["0.1", "0.2", "0.3", "3.14159", "1.05", "2.675", "1.005", "0.125", "0.375", "16777217.0", "16777216.5", "9007199254740993.0", "4503599627370497.5", "99999999999999999999.0", "123456789.987654321", "0.000001", "33554433.25", "1.0", "2.5", "-0.7", "0.0", "math.PI", "math.E", "-math.PI"]
    S.append(tpl("a = <x>; b = <y>; print(a, ' ', b, ' ', -a, '\\n'); return (a + b), (a - b), (a * b), (a < b), (a >= b), (a == b);", x=some(r, odd, ctx.n(9, 24)), y=some(r, odd, ctx.n(9, 24))))
    S.append(tpl("a = <x>; b = <y>; return (a + b), (b - a), (a * b), (b < a), (a < b), (a <= b), (b == a);", x=some(r, odd, ctx.n(9, 24)), y=some(r, big, ctx.n(8, 11))))
    S.append(tpl("a = <x>; b = <y>; return (a / b), (b / a), 1.0 / a;", x=some(r, odd[:20], ctx.n(8, 20)), y=some(r, odd + big, ctx.n(8, 35))))
    S.append(tpl("a = <x>; b = [math.floor(a), math.ceil(a), math.floor(-a), math.ceil(-a)]; return a, b, math.sqrt(a), math.pow(a, 1.0), math.pow(a, 0.0), (a == a * 1.0), {(a): 1}[a];", x=odd))
    # functions with exact results: logarithms of powers of ten, whole powers
    S.append(tpl("x = <x>.0; return math.log10(x), math.log10(1.0 * x);", x=["1" + "0" * k for k in range(20)]))
    S.append({"src": "x = 1.0; i = 0; while i <= 22: { print(math.log10(x), ' ', math.log10(x) == 1.0 * i, ' ', math.floor(math.log10(x)), '\n'); x = x * 10.0; i = i + 1; } return i;"})
    S.append(tpl("x = <x>; y = <y>; return math.pow(x, y), math.pow(-x, y);", x=["2.0", "0.5", "10.0", "3.0", "1.5", "7.0", "0.25", "100.0", "5.0", "1000.0", "12.0", "65536.0", "0.75", "1.0"],
                 y=["%d.0" % k for k in (range(-30, 60) if not ctx.quick else list(range(-3, 9)) + r.sample(range(9, 34), 6) + r.sample(range(-60, -3), 3))]))
    S.append(tpl("return math.sqrt(<x>), math.sqrt(<x~> * <x~>);", x=["%d.%s" % (r.randrange(10 ** r.randint(1, 9)), r.choice(["0", "5", "25", "125", "1"])) for _ in range(ctx.n(20, 200))]))
    # numbers around the limits of the integers
    S.append(tpl("x = <x>; return math.<f>(<s>x), type(math.<f~>(<s~>x));", f=["floor", "ceil"], s=["", "-"], x=["9223372036854775807.0", "9223372036854774784.0", "9223372036854777856.0", "4611686018427387904.0", "100000000000000000000.0", "18446744073709551616.0", "9007199254740993.0", "1.0 * 9223372036854775807 * 9223372036854775807"]))
    for _ in range(ctx.n(150, 4000)):
        num = lambda: r.choice([r.choice(odd), r.choice(big), "%d.%d" % (r.randrange(10 ** r.randint(1, 12)), r.randrange(10 ** r.randint(1, 9))), str(r.randrange(1 << r.randint(1, 62)))])
        S.append({"src": "x = %s; y = %s; z = x %s y * 1.0 %s %s; print(z, ' ', x); return z, (z < y), (z >= x), (z == x), type(z), z / 3.0, z - 0.5;" % (num(), num(), r.choice("+-*"), r.choice("+-*"), num())})
    for _ in range(ctx.n(250, 4000)):
        S.append({"src": "x = %s; y = %s; z = x %s y %s %s; print(z, ' '); return z, math.floor(z), math.ceil(z), math.floor(-z), (z < y), type(z);" % (r.choice(fs), r.choice(fs), r.choice("+-*"), r.choice("+-*"), r.choice(fs[:14]))})
    conform(ctx, S, chunk=4000)
    series(ctx)


def fixed(q):
    """a number as NojaMath writes it: units of 10^-32"""
    a, m = int(abs(Fraction(q)) * 10 ** 32), []
    while a:
        m.append(a % 10000); a //= 10000
    return {"n": q < 0, "m": m}


def number(v):
    return v[1] / 64 if v[0] == "f" else float(v[1])


def series(ctx):
    """Functions without exact results, against their power series (NojaMath)."""
    r = ctx.rng
    G = {"sin": 12, "cos": 12, "tan": 12, "asin": 1.2, "acos": 1.2, "atan": 40, "exp": 25, "log": 0, "log10": 0, "sqrt": 0, "pow": 0, "atan2": 9}
    spread = lambda: r.choice([r.uniform(0, 3), 10 ** r.uniform(-6, 8), float(r.randint(1, 2000)), 1 + 10 ** r.uniform(-9, -1), 1 - 10 ** r.uniform(-9, -1)]) * (1 if r.random() < .93 else -1)
    jobs = []
    for f, lim in G.items():
        for k in range(ctx.n(26, 700)):
            x = spread() if not lim else r.choice([1, -1]) * r.choice([r.uniform(0, lim), r.uniform(0, 1), 10 ** r.uniform(-5, 0), round(r.uniform(0, lim), 1)])
            if f in ("asin", "acos") and r.random() < .15:
                x = r.choice([1.0, -1.0, 0.5, 0.999999999999])
            y = r.choice([1, -1]) * r.choice([r.uniform(0, 9), r.uniform(0, .1), float(r.randint(1, 9))]) if f == "atan2" else r.uniform(-1, 1) * min(40, 25 / (abs(math.log(abs(x))) + 1e-3)) if f == "pow" else 0.0
            if f == "pow" and y == int(y) or not x:
                y, x = .375, 2.5
            lit = lambda z: ("-" if z < 0 else "") + "%.*f" % (r.choice([3, 9, 17, 25]) if abs(z) > .01 else 25, abs(z))
            xs, ys = lit(x), lit(y)
            if f in ("log", "log10", "pow") and not float(xs) or f == "pow" and float(ys) == int(float(ys)):
                continue
            form = r.choice(["x = %s; y = %s; return x, y, math.%s(x%s);", "x = %s; y = %s; g = math.%s; r = g(x%s); return x, y, r;", "fun f(y, x) return math.%3$s(x%4$s); x = %1$s; y = %2$s; return x, y, f(y, x);"])
            extra = ", y" if f in ("pow", "atan2") else ""
            src = form.replace("%1$s", xs).replace("%2$s", ys).replace("%3$s", f).replace("%4$s", extra) if "$" in form else form % (xs, ys, f, extra)
            jobs.append((f, {"src": src}))
    recs = []
    for (f, j), a in zip(jobs, execute([dict(j) for _, j in jobs])):
        ctx.count["run"] += 1
        v = a["rets"] if a["st"] == "ok" else None
        if not v or len(v) != 3 or any(q[0] not in "fF" for q in v):
            ctx.violation("math.%s gives no number: %s\n%s" % (f, {k: a.get(k) for k in ("st", "msg", "rets")}, j["src"]), {"src": j["src"], "observed": a})
            continue
        x, y, z = map(number, v)
        bad = math.isnan(z) or math.isinf(z)
        with decimal.localcontext() as c:
            c.prec = 60
            h = Fraction(decimal.Decimal(x).ln()) if f == "pow" and x > 0 else 0
        recs.append({"id": len(recs), "f": f, "x": fixed(Fraction(x)), "y": fixed(Fraction(y)), "r": fixed(0 if bad else Fraction(z)), "h": fixed(h), "nan": math.isnan(z), "src": j["src"], "z": str(z)})
    fi = os.path.join(nj.workdir(), "math%d.json" % os.getpid())
    step = -(-len(recs) // 4)
    def part(i):
        some_ = recs[i * step:(i + 1) * step]
        json.dump([{k: v for k, v in q.items() if k not in ("src", "z")} for q in some_], open(fi + str(i), "w"))
        out, ok = spec.tlc("NojaMath", None, {"IN": fi + str(i), "OUT": "%s%d.out" % (fi, i)}, tag="math%d" % i)
        rows = spec.read_out("%s%d.out" % (fi, i))
        if not ok or len(rows) != len(some_):
            raise spec.SpecError("TLC judged %d of %d results\n%s" % (len(rows), len(some_), spec.explain(out)))
        return rows
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for w in [w for p in ex.map(part, range(4)) for w in p]:
            q = recs[w["id"]]
            ctx.count["compared"] += 1
            ctx.kinds["series: " + q["f"]] += 1
            if not w["ok"]:
                ctx.violation("the result %s of math.%s isn't what its power series gives\n%s" % (q["z"], q["f"], q["src"]), {"src": q["src"], "observed": q["z"]})
