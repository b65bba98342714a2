---------------------------- MODULE NojaCompile ----------------------------
(***************************************************************************)
(* Translation of the abstract tree to instructions of the Noja machine.   *)
(* An instruction is <<op, line, a, b, c>>.  While code is being put       *)
(* together jump operands are relative; Link makes them absolute.          *)
(***************************************************************************)
EXTENDS NojaSyntax

I0(op, ln) == <<<<op, ln, 0, 0, 0>>>>
I1(op, ln, a) == <<<<op, ln, a, 0, 0>>>>
I2(op, ln, a, b) == <<<<op, ln, a, b, 0>>>>
I3(op, ln, a, b, c) == <<<<op, ln, a, b, c>>>>
CErr(ln, cat, msg) == I2("CERR", ln, cat, msg)
Pop1(ln) == I1("POP", ln, 1)

BinOp(o) == CASE o = "+" -> "ADD" [] o = "-" -> "SUB" [] o = "*" -> "MUL" [] o = "/" -> "DIV"
              [] o = "%" -> "MOD" [] o = "==" -> "EQL" [] o = "!=" -> "NQL" [] o = "<" -> "LSS"
              [] o = ">" -> "GRT" [] o = "<=" -> "LEQ" [] o = ">=" -> "GEQ" [] o = "|" -> "STP"
UnOp(o) == CASE o = "+" -> "POS" [] o = "-" -> "NEG" [] o = "not" -> "NOT" [] o = "?" -> "NLB"

RECURSIVE Flat(_)
Flat(n) == IF n[1] = "pair" THEN Flat(n[4]) \o Flat(n[5]) ELSE <<n>>

Breaks(code) == LET n == Len(code) IN     \* every pending BREAK now leaves to the end
  Tup([i \in 1..n |-> IF code[i][1] = "BREAK" THEN <<"JUMP", code[i][2], n + 1 - i, 0, 0>> ELSE code[i]])

RECURSIVE E(_), CallE(_, _), AssTargets(_, _, _), Items(_), Entries(_, _), Rev(_), Fn(_, _), S(_), Sx(_), Seq_(_), Params(_, _), Cat(_)

Cat(ns) == FoldLeft(LAMBDA acc, n : acc \o E(n), <<>>, ns)
Rev(ns) == FoldLeft(LAMBDA acc, n : E(n) \o acc, <<>>, ns)

CallE(n, want) ==
  LET f == n[3]
      args == n[4]
  IN Rev(args) \o
     IF f[1] = "arw"
     THEN E(f[3]) \o E(f[4]) \o I0("SELECT2", f[2]) \o I2("CALL", n[2], Len(args) + 1, want)
     ELSE E(f) \o I2("CALL", n[2], Len(args), want)

AssTargets(ts, i, ln) ==     \* targets are assigned last to first
  IF i = 0 THEN <<>>
  ELSE LET t == ts[i] IN
    (CASE t[1] = "id"  -> I1("ASS", t[2], t[3])
       [] t[1] = "sel" -> E(t[3]) \o E(t[4]) \o I0("INSERT2", t[2])
       [] OTHER        -> CErr(t[2], "Semantic", "Assigning to something that it can't be assigned to"))
    \o (IF i > 1 THEN Pop1(ln) ELSE <<>>) \o AssTargets(ts, i - 1, ln)

Items(ns) ==
  FoldLeft(LAMBDA acc, i : acc \o I1("PUSHINT", ns[i][2], <<"i", i - 1>>) \o E(ns[i]) \o I0("INSERT", ns[i][2]), <<>>, Upto(Len(ns)))
Entries(ks, vs) ==
  FoldLeft(LAMBDA acc, i : acc \o E(ks[i]) \o E(vs[i]) \o I0("INSERT", vs[i][2]), <<>>, Upto(Len(ks)))

E(n) ==
  LET k == n[1]
      l == n[2] IN
  CASE k = "int"  -> I1("PUSHINT", l, n[3])
    [] k = "flt"  -> I1("PUSHFLT", l, n[3])
    [] k = "str"  -> I1("PUSHSTR", l, n[3])
    [] k = "id"   -> I1("PUSHVAR", l, n[3])
    [] k = "none" -> I0("PUSHNNE", l)
    [] k = "true" -> I0("PUSHTRU", l)
    [] k = "false" -> I0("PUSHFLS", l)
    [] k = "big"  -> I0("UNSUP", l)
    [] k = "un"   -> E(n[4]) \o I0(UnOp(n[3]), l)
    [] k = "bin" /\ n[3] \in {"and", "or"} ->
         LET a == E(n[4])
             b == E(n[5])
             j == IF n[3] = "and" THEN "JUMPIFNOTANDPOP" ELSE "JUMPIFANDPOP"
         IN a \o I1(j, l, Len(b) + 4) \o b \o I1(j, l, 3)
            \o I0(IF n[3] = "and" THEN "PUSHTRU" ELSE "PUSHFLS", l)
            \o I1("JUMP", l, 2)
            \o I0(IF n[3] = "and" THEN "PUSHFLS" ELSE "PUSHTRU", l)
    [] k = "bin"  -> E(n[4]) \o E(n[5]) \o I0(BinOp(n[3]), l)
    [] k = "pair" -> CErr(l, "Syntax", "Tuple outside of assignment or return statement")
    [] k = "arw"  -> CErr(l, "Semantic", "Operator -> out of a function call")
    [] k = "ass"  ->
         LET ts == Flat(n[4])
             r == n[5]
         IN IF Len(ts) > 32 THEN CErr(l, "Internal", "Static buffer is too small")
            ELSE (IF Len(ts) = 1 THEN E(r)
                  ELSE IF r[1] = "call" THEN CallE(r, Len(ts))
                  ELSE CErr(r[2], "Semantic", "Assigning to " \o ToString(Len(ts)) \o " variables only 1 value"))
                 \o AssTargets(ts, Len(ts), l)
    [] k = "list" -> I1("PUSHLST", l, Len(n[3])) \o Items(n[3])
    [] k = "map"  -> I1("PUSHMAP", l, Len(n[3])) \o Entries(n[3], n[4])
    [] k = "call" -> CallE(n, 1)
    [] k = "sel"  -> E(n[3]) \o E(n[4]) \o I0("SELECT", l)
    [] k = "fn"   -> Fn(n, "???")

Params(ps, i) ==             \* parameters are bound last to first
  IF i = 0 THEN <<>>
  ELSE LET p == ps[i]
           d == IF p[3] = <<>> THEN <<>> ELSE E(p[3])
       IN (IF p[3] = <<>> THEN <<>>
           ELSE I0("PUSHTYP", p[3][2]) \o I0("PUSHNNETYP", p[3][2]) \o I0("EQL", p[3][2])
                \o I1("JUMPIFNOTANDPOP", p[3][2], Len(d) + 2) \o Pop1(p[3][2]) \o d)
          \o (IF p[2] = <<>> THEN <<>> ELSE E(p[2]) \o I2("CHECKTYPE", p[2][2], i - 1, p[1]))
          \o I1("ASS", p[4], p[1]) \o Pop1(p[4]) \o Params(ps, i - 1)

Fn(n, name) ==
  LET body == Params(n[3], Len(n[3])) \o Sx(n[4]) \o I1("RETURN", n[4][2], 0)
      bad == {i \in 1..Len(body) : body[i][1] = "BREAK"}
  IN I3("PUSHFUN", n[2], 2, Len(n[3]), name) \o I1("JUMP", n[2], Len(body) + 1)
     \o [i \in 1..Len(body) |-> IF i \in bad THEN CErr(body[i][2], "Semantic", "Break not inside a loop")[1] ELSE body[i]]

Sx(s) == S(s) \o (IF s[1] = "expr" THEN Pop1(s[2]) ELSE <<>>)
Seq_(ss) == FoldLeft(LAMBDA acc, x : acc \o Sx(x), <<>>, ss)

S(s) ==
  LET k == s[1]
      l == s[2] IN
  CASE k = "expr"  -> E(s[3])
    [] k = "comp"  -> Seq_(s[3])
    [] k = "break" -> I0("BREAK", l)
    [] k = "ret"   -> LET t == Flat(s[3]) IN
                      IF Len(t) > 32 THEN CErr(l, "Internal", "Static buffer is too small")
                      ELSE Cat(t) \o I1("RETURN", l, Len(t))
    [] k = "fun"   -> Fn(s[4], s[3]) \o I1("ASS", l, s[3]) \o Pop1(l)
    [] k = "if"    ->
         LET c == E(s[3])
             t == Sx(s[4])
         IN IF s[5] = <<>> THEN c \o I1("JUMPIFNOTANDPOP", s[3][2], Len(t) + 1) \o t
            ELSE LET f == Sx(s[5]) IN
                 c \o I1("JUMPIFNOTANDPOP", s[3][2], Len(t) + 2) \o t \o I1("JUMP", l, Len(f) + 1) \o f
    [] k = "while" ->
         LET c == E(s[3])
             b == Sx(s[4])
         IN Breaks(c \o I1("JUMPIFNOTANDPOP", s[3][2], Len(b) + 2) \o b
                   \o I1("JUMP", l, -(Len(c) + 1 + Len(b))))
    [] k = "dow"   ->
         LET b == Sx(s[3])
             c == E(s[4])
         IN Breaks(b \o c \o I1("JUMPIFANDPOP", s[4][2], -(Len(b) + Len(c))))

JumpOps == {"JUMP", "JUMPIFANDPOP", "JUMPIFNOTANDPOP", "PUSHFUN"}
Link(code) == Tup([i \in 1..Len(code) |->
  IF code[i][1] = "BREAK" THEN CErr(code[i][2], "Semantic", "Break not inside a loop")[1]
  ELSE IF code[i][1] \in JumpOps THEN [code[i] EXCEPT ![3] = i + @] ELSE code[i]])

\* <<"ok", code>>, <<"err", category, message>> or <<"unsup">>
Compile(src) ==
  LET p == ParseProgram(src) IN
  IF p[1] = "syntax" THEN <<"err", "Syntax", "">>
  ELSE IF p[1] = "any" THEN <<"err", "any", "">>
  ELSE LET code == Link(Seq_(p[2]) \o I0("EXIT", 0))
           bad == {i \in 1..Len(code) : code[i][1] = "CERR"}
       IN IF bad = {} THEN <<"ok", code>>
          ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
               IN <<"err", code[i][3], code[i][4]>>
=============================================================================
