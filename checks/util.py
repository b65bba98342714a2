import re
from lib import gen, common
from lib.common import conform


def tpl(text, stdin="", opts=None, fs=None, max=None, **holes):
    """A program with holes written <name>; TLC fills each occurrence with every
    alternative of holes[name].  <name~> repeats the choice of the first <name>."""
    parts, hs, same, first, at = [], [], [], {}, 0
    for m in re.finditer(r"<(%s)(~?)>" % "|".join(map(re.escape, holes)), text) if holes else ():
        parts.append(text[at:m.start()])
        k = m.group(1)
        same.append(first[k] if m.group(2) else 0)
        hs.append(list(holes[k]))
        first.setdefault(k, len(hs))
        at = m.end()
    parts.append(text[at:])
    s = {"parts": parts, "holes": hs, "same": same}
    if stdin:
        s["stdin"] = stdin
    if opts:
        s["opts"] = opts
    if fs:
        s["fs"] = fs
    if max:
        s["max"] = max
    return s


def some(rng, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else rng.sample(xs, n)


def progs(ctx, n, space=0.4, **kw):
    """n random programs, some of them with unusual layout"""
    out = []
    for _ in range(n):
        s = gen.Gen(ctx.rng, **kw).program()
        if ctx.rng.random() < space:
            s = gen.respace(s, ctx.rng)
        out.append({"src": s})
    return out


# one expression of every kind of value (with the declarations they need)
DECL = "fun F(a) return a; fun mk(z) { fun in(q) return z; return in; } C = mk(3); L = [1, 'x', [2]]; M = {a: 1, 2: 'b'}; B = buffer.fromString('h\u00e9'); "
VALUES = ["none", "true", "false", "0", "1", "-7", "9223372036854775807", "0.0", "2.5", "-0.5", "''", "'ab'", "'\u00e9\U0001F600'",
          "[]", "L", "{}", "M", "B", "F", "C", "print", "math", "int", "None", "any", "?int", "(int | String)", "List"]
GCS = ({}, {"gc": "every:5"})


def abyss(n):
    """texts nested n levels deep, in every way the grammar allows"""
    return {"paren": "x = " + "(" * n + "1" + ")" * n + ";", "list": "x = " + "[" * n + "]" * n + ";", "map": "x = " + "{a:" * n + "1" + "}" * n + ";", "neg": "x = " + "-" * n + "1;",
            "not": "x = " + "not " * n + "true;", "null": "x = " + "?" * n + "int;", "block": "{" * n + "}" * n, "assign": "a = " * n + "1;", "plus": "x = 1" + " + 1" * n + ";", "or": "x = int" + " | int" * n + ";",
            "tuple": "x" + ",x" * n + ";", "results": "return x" + ",x" * n + ";", "dots": "x = {}; x" + ".a" * n + ";", "arrows": "x = {}; x" + "->a()" * n + ";", "calls": "x" + "()" * n + ";", "args": "x(" * n + "1" + ")" * n + ";",
            "if": "if true: " * n + "1;", "else": "if true: 1; else " * n + "1;", "while": "while false: " * n + "1;", "do": "do " * n + "1; " + "while false;" * n, "fun": "fun f() " * n + "1;",
            "method": "x = " + "{fun f() return " * n + "1" + ";}" * n + ";", "default": "x = " + "{fun f(a=" * n + "1" + ") {}}" * n + ";", "index": "x = " + "x[" * n + "0" + "]" * n + ";", "and": "x = " + "true and " * n + "true;",
            "inner": "fun f() { return [" * n + "1" + "]; }" * n, "mixed": "x = " + "1 < (true and " * n + "true" + ")" * n + ";", "pairs": "return " + "(1," * n + "1" + ")" * n + ";", "open": "x = " + "(" * n, "openb": "{" * n, "opens": "[" * n}
