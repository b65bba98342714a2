"""Programs with a size in them.  TLC explores each at several small sizes; where the
specification's outcome does not depend on the size (line numbers: linearly), the
implementation is held to that outcome at large ones, which TLC can't enumerate:
programs of tens of thousands of statements, containers of tens of thousands of
elements, operations repeated tens of thousands of times."""
from lib import spec
from lib.common import compare_all

SMALL = (2, 3, 5)
BIG = 1 << 26                     # heap bytes


def f(make, *sizes, **opts):
    return (make, sizes or (300, 5000, 70000), opts)


def s(text):
    """text with @ as the size"""
    return lambda n: {"src": text.replace("@", str(n))}


def rep(pre, unit, post):
    """unit repeated; # in it is the number of the repetition, \a a number sign"""
    return lambda n: {"src": pre + "".join(unit.replace("#", str(i)).replace("\a", "#") for i in range(n)) + post}


def std(pre, unit, post, src):
    return lambda n: {"src": src, "stdin": pre + unit * n + post}


def asm(pre, unit, post):
    return lambda n: {"src": rep(pre, unit, post)(n)["src"], "asm": True}


def files(main, **fs):
    """a program and the files around it: name -> function of the size"""
    return lambda n: {"src": main.replace("@", str(n)).replace("__", "."), "fs": {"files": {p.replace("__", "."): g(n) for p, g in fs.items()}, "cwd": "", "main": None}}


def folder(main):
    return lambda n: {"src": main.replace("@", str(n)).replace("__", "."), "fs": {"files": {"f%05d" % i: "" for i in range(n)}, "cwd": "", "main": None}}


LONGT = (300, 4000, 40000)
FAM = {
 # jumps over, out of and back across long stretches of code
 "C05": [
  f(rep("x = 1; if x == 2: { ", "x = 3;\n", " } print(x);"), *LONGT), f(rep("x = 1; if x == 1: { ", "x = 3;\n", " } else print(7); print(x);"), *LONGT),
  f(rep("x = 1; if x == 2: print(8); else { ", "x = 3;\n", " } print(x);"), *LONGT), f(rep("x = 1; if x == 1: print(8); else { ", "x = 3;\n", " } print(x);"), *LONGT),
  f(rep("i = 0; while i < 3: { ", "x = i;\n", " i = i + 1; } print(i, x);"), *LONGT), f(rep("i = 0; do { ", "x = i;\n", " i = i + 1; } while i < 3; print(i, x);"), *LONGT),
  f(rep("i = 0; while true: { i = i + 1; if i == 2: break; ", "x = i;\n", " } print(i, x);"), *LONGT), f(rep("i = 0; while true: { ", "x = i;\n", " i = i + 1; if i == 2: break; } print(i, x);"), *LONGT),
  f(rep("fun f(a) { if a: return 1; ", "x = 2;\n", " return x; } print(f(true), f(false));"), *LONGT), f(rep("", "x = 2;\n", " fun f(a) { while a: { a = false; } return 5; } print(f(true), f(false)); i = 0; do i = i + 1; while i < 3; print(i);"), *LONGT),
  f(rep("x = 0; ", "if x < 0: x = 1; else x = 2;\n", " print(x);"), *LONGT), f(rep("i = 0; ", "while true: { if i < 0: i = 9; break; }\n", " print(i);"), *LONGT), f(rep("", "{", "x = 1;" ) if 0 else rep("", "do { x = 4; } while false;\n", "print(x);"), *LONGT),
  # many ways out of one loop or function, many operands and alternatives
  f(rep("k = 1; n = 0; while true: { n = n + 1; ", "if k == #: break; ", " break; n = 9; } print(k, n);"), 20, 60, *LONGT), f(rep("k = 0; n = 0; while n < 1: { n = n + 1; ", "if k == #: break; ", " n = 9; } print(k, n);"), 20, 60, *LONGT), f(rep("k = 0; n = 0; do { n = n + 1; ", "if k > #: break; if n > 1: { while true: { break; } if k == #: break; }", " } while n < 3; print(k, n);"), 20, 60, *LONGT),
  f(rep("fun f(k) { ", "if k == #: return #, 'x'; ", " return 'none'; } a, b = f(1); print(a, b, f(0), f(0 - 1));"), 20, 60, *LONGT), f(rep("k = 1; while true: { ", "if k < #: { } else if k == # + 5: break; else k = k + 0; ", " break; } print(k);"), 20, 60, *LONGT),
  f(rep("x = true", " and true", "; y = false", ) if 0 else rep("print(true", " and 1 == 1", " and 1 == 2);"), 20, 60, 200), f(rep("print(false", " or 1 == 2", " or 1 == 1);"), 20, 60, 200), f(rep("n = 0; ", "while true: { ", "n = 1; ") if 0 else rep("n = 0; ", "while n < 1: { n = n + 1; if n == 1: break; n = 7; } n = n - 1; ", " print(n);"), *LONGT),
  f(s("i = 0; while i < @: i = i + 1; print(i == @);"), 300, 40000, 100000), f(s("i = 0; do { i = i + 1; j = 0; while true: { j = j + 1; if j == 2: break; } } while i < @; print(i == @, j);"), 300, 40000),
  f(s("fun f() { i = 0; while true: { i = i + 1; if i == @: return 'out'; } } print(f());"), 300, 40000)],
 # texts of any length
 "C04": [
  f(rep("", "a = 'abcdefghij';\n", "b = 'klm'; print(a, b);"), *LONGT), f(rep("a = 'first'; if a == 1: {", "x = 'abcdefghij#';\n", "} b = 'last'; print(a, b);"), *LONGT), f(rep("a = 'first'; if a == 1: {", "name# = 1;\n", "} last = 2; print(a, last);"), *LONGT),
  f(rep("x = ", "0", "12; print(x);"), 17, 40, 61), f(rep("x = 1", "", ";") if 0 else rep("x = 1.", "0", "; print(x);"), 17, 40, 61), f(rep("a", "b", " = 1; print('ok');"), 300, 3000, 70000), f(rep("#", "x", "\nprint('ok');"), 300, 3000, 70000),
  f(rep("x = 1", " ", "; print(x);"), 300, 3000, 70000), f(rep("x = 1", "\n", "; print(x);"), 300, 3000, 70000), f(rep("x = 1", "\t\a c\r\n", "; print(x);"), 300, 3000, 40000), f(rep("print(x);", "", "") if 0 else rep("x = [", "1, ", "2]; print(x[0]);"), *LONGT),
  f(rep("", ";", "") if 0 else rep("x = {", "k#: 1, ", "z: 2}; print(x.z, x.k1);"), *LONGT), f(rep("x = {", "'k': 1, ", "z: 2}; print(x.z, x.k, count(x));"), *LONGT), f(rep("print('é');", "\a ü€\n", "print('ö');"), *LONGT)],
 "C24": [
  f(rep("print(1); ", "x = 1;\n", " x = = 2;"), *LONGT), f(rep("print(1); ", "x = 1;\n", " break;"), *LONGT), f(rep("print(1); ", "x = 'abcdef';\n", " 'open"), *LONGT), f(rep("print(1); ", "x = 1;\n", " 1 = x;"), *LONGT), f(rep("print(1); while false: {", "x = 1;\n", "} {"), *LONGT),
  f(rep("", "x = 1;\n", "print(x);"), *LONGT), f(rep("", "fun f() return 1;\n", "print(f());"), *LONGT), f(rep("", "while false: break;\n", "print(1);"), *LONGT), f(rep("", "{ x = [1, {a: 2}, 'b']; }\n", "print(x);"), *LONGT), f(rep("", "{}", "print(1);"), *LONGT), f(rep("x = 1;", "\a\n", ""), *LONGT), f(rep("x = 1;", " ", "?"), *LONGT)],
 "C22": [
  f(rep("", "\n", "x = 1;\nx();\n"), *LONGT), f(rep("", "x = 1;\n", "y = x.\na;\nfun f() {\n x[0] = 1;\n}\nf();"), *LONGT), f(rep("fun f() {\n error('e');\n}\n", "x = 1;\n", "f();"), *LONGT), f(rep("fun f() {\n", "x = 1;\n", "error('e');\n}\nf(\n);"), *LONGT),
  f(rep("x = 1; ", "x = 2; ", "\nx();\n"), *LONGT), f(rep("", "\a comment\n", "fun f(a: int) {\n return a;\n}\nf(1);\nf('a');"), *LONGT), f(rep("", "x = 'a\nb';\n", "error(x);"), *LONGT), f(rep("", "\r\n", "x =\n = 1;"), *LONGT), f(rep("x = [", "1,\n", "2\n.a\n];\n x();"), *LONGT),
  f(rep("fun a() {\n", "x = 1;\n", "b(); }\nfun b() {\nc(1);\n}\nfun c(i) {\nif i == 1:\n error('deep');\n}\na();"), *LONGT)],
 "C36": [
  f(asm("", "PUSHINT #; POP 1;\n", "PUSHINT 5; RETURN 1;"), *LONGT, lang="asm"), f(asm("JUMP end;\n", "PUSHINT #; POP 1;\n", "end: PUSHSTR \"at\"; RETURN 1;"), *LONGT, lang="asm"),
  f(asm("PUSHINT 3; ASS \"i\"; POP 1; JUMP go; back: PUSHVAR \"i\"; RETURN 1;\n", "NOPE;\n", "go: PUSHINT 1; PUSHINT 2; LSS; JUMPIFANDPOP back; PUSHINT 9; RETURN 1;"), *LONGT, lang="asm"),
  f(asm("JUMP over;\n f: PUSHINT 77; RETURN 1;\n", "l#: PUSHSTR \"text #\"; POP 1;\n", "over: PUSHFUN g, 0, \"g\"; ASS \"v\"; POP 1; PUSHFUN f, 0, \"f\"; CALL 0, 1; PUSHVAR \"v\"; CALL 0, 1; RETURN 2; g: PUSHSTR \"end\"; RETURN 1;"), 300, 5000, 15000, lang="asm"),
  f(asm("JUMP ", "a", "2; f: PUSHINT 1; RETURN 1; ") if 0 else (lambda n: {"src": "JUMP @2; @1: PUSHINT 1; RETURN 1; @3: PUSHINT 3; RETURN 1; @2: PUSHTRU; JUMPIFANDPOP @3; @: PUSHINT 0; RETURN 1;".replace("@", "a" * n), "asm": True}), 7, 8, 14, 15, 16, 23, 24, 31, 32, 40, 63, 64, 127, 128, 255, 256, 300, 1000, lang="asm"),
  f(asm("JUMP go; back: PUSHINT 5; RETURN 1; ", "JUMP far; ", " go: PUSHTRU; JUMPIFANDPOP back; far: PUSHINT 6; RETURN 1;"), 20, 60, *LONGT, lang="asm"), f(asm("JUMP far; ", "JUMP far; ", "PUSHINT 5; RETURN 1; far: PUSHINT 6; RETURN 1;"), 20, 60, *LONGT, lang="asm"),
  f(asm("PUSHINT 1; ", "JUMP x#; x#: ", "POP 1; PUSHNNE; RETURN 1;"), 300, 5000, lang="asm"), f(asm("PUSHINT 1; POP 1;\n", "NOPE;\n", "POP 1;"), *LONGT, lang="asm"), f(asm("PUSHINT 1; POP 1;\n", "NOPE;\n", "POP;"), *LONGT, lang="asm"), f(asm("", "\n", "a", ), *LONGT, lang="asm"),
  f(asm("PUSHINT ", "0", "7; RETURN 1;"), 17, 300, 3000, lang="asm"), f(asm("PUSHSTR \"", "a", "\"; POP 1; EXIT;"), 300, 900, lang="asm"), f(asm("a", "b", ": PUSHINT 1; RETURN 1;"), 300, 3000, lang="asm")],
 # containers of any size
 "C10": [
  f(s("L = []; i = 0; while i < @: { L[i] = i; i = i + 1; } ok = count(L) == @; i = 0; while i < @: { if L[i] != i: ok = false; i = i + 1; } K = keysof(L); print(ok, count(K) == @, K[@ - 1] == @ - 1, L[@], L[0 - 1]);"), 300, 5000, 40000, heap=BIG),
  f(s("L = []; i = 0; while i < @: { L[count(L)] = 1; i = i + 1; } L[@ - 1] = 'z'; L[@] = 'y'; print(L[@ - 1], L[@], count(L) == @ + 1); L[@ + 2] = 1;"), 300, 40000, heap=BIG),
  f(s("L = []; i = 0; while i < @: { append(L, i); i = i + 1; } n = 0; it = makeIterator(L); while true: { v, k, j = it->next(); if v == none: break; if v == n and k == n and j == n: n = n + 1; } print(n == @);"), 300, 3000, heap=BIG)],
 "C11": [
  f(s("M = {}; i = 0; while i < @: { M[i] = 0 - i; i = i + 1; } ok = count(M) == @; i = 0; while i < @: { if M[i] != 0 - i: ok = false; i = i + 1; } K = keysof(M); i = 0; while i < @: { if K[i] != i: ok = false; i = i + 1; } print(ok, count(K) == @, M[@], M[0 - 1]);"), 300, 5000, 40000, heap=BIG),
  f(s("M = {}; i = 0; while i < @: { k = toString(i * 7); M[k] = i; i = i + 1; } ok = count(M) == @; i = 0; while i < @: { if M[toString(i * 7)] != i: ok = false; M[toString(i * 7)] = 1; i = i + 1; } print(ok, count(M) == @, M['x'], M['7']);"), 300, 2000, heap=BIG),
  f(s("M = {}; i = 0; while i < @: { M[i * 65536] = i; M[i * 0.5] = 'f'; i = i + 1; } i = 0; ok = true; while i < @: { if M[i * 65536] != i or M[i * 0.5] != 'f': ok = false; i = i + 1; } print(ok, count(M) == @ * 2);"), 300, 3000, heap=BIG)],
 "C12": [
  f(s("L = []; A = L; i = 0; while i < @: { L[i] = [i]; i = i + 1; } B = [A, L]; B[0][@ - 1][0] = 'c'; print(L[@ - 1], A[@ - 1], count(B[1]) == @);"), 300, 20000, heap=BIG),
  f(s("P = [none]; H = P; i = 0; while i < @: { Q = [P]; P = Q; i = i + 1; } i = 0; R = P; while i < @: { R = R[0]; i = i + 1; } R[0] = 'end'; print(H, R);"), 300, 3000, heap=BIG)],
 "C13": [
  f(s("s = ''; i = 0; while i < @: { s = string.cat(s, 'ab', 'é'); i = i + 1; } print(count(s) == 3 * @, s[3 * @ - 1], s[3 * @ - 2], s[3 * @], string.slice(s, 4 * @ - 4, 4), s == string.cat(s, ''));"), 300, 2500, heap=BIG),
  f(s("s = 'aé€'; i = 1; while i < @: { s = string.cat(s, s); i = i * 2; } n = count(s); t = string.cat(s, 'z'); print(n / 3 * 3 == n, s[n - 1], s[n], t[n], t == s, s == string.slice(t, 0, n * 2), string.slice(s, n * 2 - 3));"), 300, 5000, 70000, 500000, heap=BIG),
  f(s("s = 'a'; while count(s) < @: s = string.cat(s, s); t = string.trim(string.cat('  ', s, '  ')); print(t == s, s[count(s) - 1], string.slice(s, count(s) - 1), string.slice(s, count(s)));"), 300, 5000, 70000, 500000, heap=BIG)],
 "C14": [
  # many windows on the same bytes, most of them dropped
  f(s("b = buffer.fromString('hello'); L = []; i = 0; while i < @: { L[i] = buffer.sliceUp(b, i % 4, 1); i = i + 1; } b = none; k = buffer.sliceUp(L[1], 0, 1); m = L[0]; L = none; i = 0; while i < 3: { g = [i]; h = buffer.new(5); h[0] = 90; i = i + 1; } print(k, m, buffer.toString(k));"), 30, 127, 128, 254, 255, 256, 257, 300, 511, 512, 5000, 65540, heap=BIG, gc="every:70001"),
  f(s("b = buffer.new(9); i = 0; c = b; while i < @: { c = buffer.sliceUp(c, 0, 9); c[i % 9] = 1; i = i + 1; } b = none; d = buffer.sliceUp(c, 1, 3); c = none; i = 0; while i < 4: { g = buffer.new(9); g[1] = 77; i = i + 1; } print(count(d), d[1] == 77);"), 127, 128, 255, 256, 300, 5000, 70000, gc="every:997", heap=2000000),
  f(s("B = buffer.new(@); i = 0; while i < @: { B[i] = i % 256; i = i + 1; } ok = count(B) == @; i = 0; while i < @: { if B[i] != i % 256: ok = false; i = i + 1; } print(ok, B[@], B[0 - 1]); B[@] = 1;"), 300, 5000, 70000, heap=BIG),
  f(s("B = buffer.new(@ * 10); S = buffer.sliceUp(B, @, @ * 5); T = buffer.sliceUp(S, @, @); T[@ - 1] = 9; S[@] = 7; print(count(T) == @, B[@ * 3 - 1], B[@ * 2], T[0], T[@], count(S) == 5 * @, B[@ * 3]); buffer.sliceUp(T, 1, @);"), 300, 7000, 200000, heap=BIG)],
 "C15": [
  f(s("s = 'aé€\U0001F600'; i = 1; while i < @: { s = string.cat(s, s); i = i * 2; } B = buffer.fromString(s); t = buffer.toString(B); print(t == s, count(B) / 10 * 10 == count(B), B[count(B) - 1]); B[count(B) - 1] = 255; print(buffer.toString(B));"), 300, 5000, 40000, heap=BIG)],
 "C16": [
  f(s("L = [[]]; i = 1; while i < @: { L[i] = L; i = i + 1; } M = {a: L[0]}; L[0][0] = M; print(M); print(L[0]);"), 300, 5000, heap=BIG)],
 # repetition
 "C23": [
  f(s("fun f(a) { if a == 0: return 0; return f(a - 1) + 1; } i = 0; while i < @: { x = f(9); i = i + 1; } print(x, f(13));"), 300, 5000), f(s("fun f() return 1, 2, 3, 4, 5, 6, 7, 8; i = 0; while i < @: { a, b, c, d, e, g, h, k = f(); f(); a = f(); [f(), f()]; i = i + 1; } print(a, k);"), 300, 5000),
  f(s("i = 0; while i < @: { [1, 2, [3, 4, [5, 6, [7]]]]; i; i + 1; print(); M = {a: i, b: [i]}; M.a = M.b[0] = i; i = i + 1; } print([1,[2,[3,[4,[5,[6,[7,[8,[9]]]]]]]]]);"), 300, 5000),
  f(rep("x = 0;", "x; [x]; x + 1; x = (x);\n", "print(x);"), 300, 4000, 20000), f(s("fun it(n) { while true: { while true: { if n == n: break; } n = n - 1; if n < 0: return 1; } } print(it(@), it(@));"), 300, 5000)],
 "C06": [
  f(s("F = []; fun mk(i) { fun g() { return i; } return g; } i = 0; while i < @: { F[i] = mk(i); i = i + 1; } ok = true; i = 0; while i < @: { g = F[i]; if g() != i: ok = false; i = i + 1; } print(ok);"), 300, 3000, heap=BIG),
  f(rep("fun f() { ", "v# = #; ", "fun g() { fun h() return v0 + v1; v1 = 5; return h(); } return g(); } print(f());"), *LONGT), f(rep("", "v# = #;\n", "fun f() { v1 = 'own'; return v1; } print(f(), v1, v0);"), *LONGT, heap=BIG), f(rep("", "fun f#() return #;\n", "print(f0(), f1());"), *LONGT, heap=BIG)],
 "C07": [
  f(rep("", "fun f#(a, b=#) return a, b;\n", "x, y = f1(0); print(x, y); print(f0(1, 2), f1());"), *LONGT, heap=BIG), f(s("fun f(a, b) { return b, a; } i = 0; x = 1; y = 2; while i < @ * 2: { x, y = f(x, y); i = i + 1; } print(x, y);"), 300, 20000)],
 "C09": [
  f(rep("x = ", "y = ", "5; print(x, y);"), 20, 100), f(rep("M = {}; ", "M.a = M.b = #;\n", "M.c = 1; print(M.c, count(M));"), *LONGT)],
 "C08": [f(rep("fun f(a: int, b: ?int) return a;\n", "f(#, #);\n", "f(1, 'x');"), *LONGT), f(rep("T = int; ", "T = T | Bool;\n", "fun f(a: T) return a; f(true); f(1.5);") if 0 else s("fun f(a: int = 3, b: (int | String)) return a; i = 0; while i < @: { f(i, 'x'); i = i + 1; } print(f(none, 1)); f(1, 1.5);"), 300, 20000),
         f(s("L = []; i = 0; while i < @: { L[i] = i; i = i + 1; } T = []; i = 0; while i < @: { T[i] = int; i = i + 1; } print(istypeof(T, L)); L[@ - 1] = 'x'; print(istypeof(T, L));"), 300, 5000, heap=BIG)],
 "C19": [f(s("L = []; T = []; i = 0; while i < @: { L[i] = i; T[i] = ?int; i = i + 1; } print(istypeof(T, L), istypeof(List, L)); L[@ - 1] = none; print(istypeof(T, L)); L[@ - 1] = 1.5; print(istypeof(T, L)); L[@] = 1; L[@ - 1] = 1; print(istypeof(T, L), istypeof(L, L));"), 300, 5000, 40000, heap=BIG),
         f(s("M = {}; T = {}; i = 0; while i < @: { M[i] = i; T[i] = int | String; i = i + 1; } print(istypeof(T, M), istypeof(Map, M)); M[0 - 1] = 1; print(istypeof(T, M)); T[0 - 2] = int; print(istypeof(T, M)); M[0 - 2] = 1.5; print(istypeof(T, M));"), 300, 3000, heap=BIG),
         f(s("M = {}; i = 0; while i < @: { M[i] = i; i = i + 1; } T = {}; T[@ - 1] = int; print(istypeof(T, M)); T[@] = int; print(istypeof(T, M));"), 300, 5000, heap=BIG)],
 "C17": [f(s("L = []; i = 0; while i < @: { L[i] = i * 3; i = i + 1; } n = 0; it = makeIterator(L); while true: { v, k, j = it->next(); if k == none: break; if v == 3 * n and k == n and j == n: n = n + 1; else error('x'); } print(n == @, it->next(), it->next());"), 300, 3000, heap=BIG),
         f(s("L = []; i = 0; while i < @: { append(L, 'x'); i = i + 1; } t = toString(L); print(t[0], t[count(t) - 1], t[count(t) - 2], t[count(t) - 3], count(t) / @);"), 300, 1000, heap=BIG), f(s("M = {}; i = 0; while i < @: { M[i] = i; i = i + 1; } n = 0; it = makeIterator(M); while true: { v, k, j = it->next(); if k == none: break; if v == n and k == n and j == n: n = n + 1; } print(n == @, it->next());"), 300, 3000, heap=BIG)],
 "C27": [f(files("i = 0; n = 0; while i < @: { f = files.openFile('a', files.READ); d = files.openDir('.'); if f == none or d == none: n = n + 1; i = i + 1; } b = buffer.new(3); print(files.read(f, b), n);", a=lambda n: "xyz"), 300, 3000, heap=60000)],
 "C29": [],
 "C30": [f(files("print(import('m__noja'));", m__noja=lambda n: "x = 1;\n" * n + "return 'm';"), *LONGT), f(files("M = import('m__noja'); print(M.a, M.last, M.k1);", m__noja=lambda n: "a = 2;\n" + "".join("k%d = %d;\n" % (i, i) for i in range(n)) + "last = 3;"), *LONGT, heap=BIG), f(files("i = 0; while i < @: { M = import('m__noja'); if M.x != 1: error('x'); M.x = 2; i = i + 1; } print(M.y);", m__noja=lambda n: "x = 1; y = 'z';"), 300, 3000),
         f(files("F = import('m__noja'); print(F.f(), F.g());", m__noja=lambda n: "fun f() return 'f';\n" + "# %s\n" % ("c" * n) + "x = 1;\n" * n + "fun g() { return x; }"), *LONGT), f(files("import('m__noja');", m__noja=lambda n: "\n" * n + "x = ;"), *LONGT), f(files("import('m__noja');", m__noja=lambda n: "\n" * n + "x = 1;\nx();"), *LONGT), f(files("print(import('m__noja'));", m__noja=lambda n: "return '" + "é" * min(n, 2000) + "';" if 0 else "return 'é';" + " " * n), *LONGT)],
 "C31": [f(files("f = files.openFile('o', files.READ + files.WRITE); b = buffer.new(1); b[0] = 65; n = 0; i = 0; while i < @: { n = n + files.write(f, b); i = i + 1; } f = none; print(n == @); g = files.openFile('a', files.READ); c = buffer.new(7); n = 0; m = 1; while m > 0: { m = files.read(g, c); n = n + m; } print(n == @ + 3, files.read(g, c));", a=lambda n: "x" * n + "end") if 0 else files("g = files.openFile('a', files.READ); c = buffer.new(7); n = 0; m = 1; while m > 0: { m = files.read(g, c); n = n + m; } print(n == @ + 3, files.read(g, c)); g = files.openFile('a', files.READ); c = buffer.new(@ + 1); n = files.read(g, c); print(n == @ + 1, c[0], c[@]); n = files.read(g, c); print(n, c[0], c[1], c[@]); n = files.read(g, c); print(n, c[0]);", a=lambda n: "x" * n + "end"), 300, 4095, 4096, 4097, 70000, heap=BIG)],
 "C32": [f(folder("d = files.openDir('.'); n = 0; M = {}; x = files.nextDirItem(d); while x != none: { n = n + 1; M[x] = n; x = files.nextDirItem(d); } print(n == @ + 2, count(M) == @ + 2, files.nextDirItem(d), M.f00000 != none, M.f00001 != none);"), 300, 3000, heap=BIG)],
 # collections
 "C25": [
  f(s("L = []; i = 0; while i < @: { L[i] = [i, toString(i)]; t = [L, i]; i = i + 1; } ok = count(L) == @; i = 0; while i < @: { if L[i][0] != i or count(L[i]) != 2: ok = false; i = i + 1; } print(ok, L[0], L[1]);"), 300, 2000, heap=700000, gc="every:4001"),
  f(s("M = {}; i = 0; while i < @: { M[i] = {v: i}; i = i + 1; } ok = count(M) == @; i = 0; while i < @: { if M[i].v != i: ok = false; i = i + 1; } print(ok, M[0], M[1], M[@]);"), 300, 3000, heap=2000000, gc="every:5003"),
  f(s("s = 'x'; B = buffer.new(@); i = 0; while i < @: { B[i] = i % 256; t = string.cat(s, 'é'); S = buffer.sliceUp(B, i, 1); i = i + 1; } print(B[1], S[0] == (@ - 1) % 256, count(B) == @, t);"), 300, 5000, heap=100000, gc="every:997"),
  f(s("P = none; i = 0; while i < @: { P = [P, i]; i = i + 1; } n = 0; while P != none: { if P[1] == @ - 1 - n: n = n + 1; P = P[0]; } print(n == @);"), 300, 3000, heap=1000000, gc="every:3001")],
 "C26": [
  f(s("fun f(a, b) { return a, b, 3, 4, 5, 6, 7, 8; } fun g() {} fun h() return 1; i = 0; while i < @: { f(i); a, b, c, d, e, g1, h1, k = f(i, 2); x, y = f(); f(1, 2, 3); a, b, c, d = h(); x = g(); [f(), h(), g()]; i = i + 1; } print(a, c, k, x);"), 300, 10000, heap=120000),
  f(s("i = 0; while i < @: { L = [i]; L[0] = L; M = {l: L}; fun f() return M; s = string.cat('ab', 'cd'); B = buffer.new(10); i = i + 1; } print(f().l == none, s);"), 300, 20000, heap=120000),
  f(s("fun mk(n) { L = []; i = 0; while i < 20: { L[i] = [n, i]; i = i + 1; } return L; } i = 0; while i < @: { x = mk(i); i = i + 1; } print(count(x), x[19][0] == @ - 1);"), 300, 3000, heap=120000)],
 "C21": [
  f(rep("", "x = 1;\n", "print(x); print(1 + 'a'); print('no');"), *LONGT), f(s("i = 0; while true: { i = i + 1; if i == @: error('now'); }"), 300, 20000)],
 "C33": [
  f(std("", "a", "\nsecond\n", "x = input(); y = input(); print(count(x) > 1, x[0], x[count(x) - 1], y, input());"), 254, 255, 256, 257, 509, 510, 511, 512, 1020, 1021, 5000, 70000, 300000, heap=BIG),
  f(std("", "é", "", "x = input(); print(x[0], x[count(x) - 1], x[count(x)], input());"), 127, 128, 129, 5000, 70000, heap=BIG),
  f(std("", "line\n", "last", "n = 0; do { x = input(); n = n + 1; } while x == 'line'; print(x, input(), n > 1);"), 300, 20000)],
}


def closed(x):
    return x if x.get("asm") else dict(x, src=x["src"] + "\nreturn 1;")      # not the map of the variables


def scaled(ctx, prop, lines=False):
    fams = FAM.get(prop)
    if not fams:
        return
    sc, where = [], []
    for k, (make, sizes, opts) in enumerate(fams):
        for n in SMALL:
            sc.append(dict(closed(make(n)), max=20000))
            where.append((k, n))
    got = {}
    for s0, e in zip(where, spec.run(sc)):
        got[s0] = e
    use = []
    for k, (make, sizes, opts) in enumerate(fams):
        es = [got[k, n] for n in SMALL]
        flat = [{x: e[x] for x in ("st", "cat", "msg", "out", "rets")} for e in es]
        if es[0].get("tree"):
            es[0] = dict(es[0], tree=None)      # files depend on the size
        if es[0]["st"] in ("unsup", "long") or flat.count(flat[0]) != len(flat):
            raise spec.SpecError("the specification's outcome depends on the size: %s: %s" % (make(2)["src"][:300], [(x["st"], x["msg"], x["out"][:60]) for x in flat]))
        trs = [e["tr"] or [] for e in es]
        def at(n, trs=trs):
            tr = []
            for rows in zip(*trs):
                (c, a), (_, b), (_, d) = rows
                k1 = (b - a) // (SMALL[1] - SMALL[0])
                assert d == a + k1 * (SMALL[2] - SMALL[0]), rows
                tr.append([c, a + k1 * (n - SMALL[0])])
            return tr
        if len({len(t) for t in trs}) != 1:
            raise spec.SpecError("stack traces differ: " + make(2)["src"][:300])
        for n in sizes:
            x = closed(make(n))
            x["opts"] = dict({"max": 60000000}, **opts)
            use.append((x, dict(es[0], tr=at(n))))
            ctx.count["large"] += 1
    compare_all(ctx, use, lines=lines)
