----------------------------- MODULE NojaSyntax -----------------------------
(***************************************************************************)
(* Concrete syntax of Noja: Lex maps source text to tokens, ParseProgram   *)
(* maps tokens to an abstract tree.  Nodes are tuples                      *)
(* <<kind, line, children...>>; a failed parse has position 0.             *)
(***************************************************************************)
EXTENDS NojaFloat

Alpha == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v",
          "w","x","y","z","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R",
          "S","T","U","V","W","X","Y","Z","_"}
Alnum == Alpha \cup Digits
OperCh == {"+","-","*","/","<",">","!","=",",","|","%"}
Oper1 == {"+","-","*","/","<",">","=",",","|","%"}
Oper2 == {"==","!=","<=",">=","->"}
Keywords == {"if","fun","not","and","or","else","none","true","false","return","while","break","do"}

At(s, i) == IF i <= Len(s) THEN SubSeq(s, i, i) ELSE ""

Esc(c) == CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r"
            [] c = "\\" -> "\\" [] c = "'" -> "'" [] c = "\"" -> "\"" [] OTHER -> ""

\* numeric literals: 64-bit ints, doubles.  A literal that is too large is the
\* token "huge", one this specification does not describe is "big".
IntTok(t) == IF Len(t) > 63 THEN <<"huge", 0>>
             ELSE LET v == FromMag(FALSE, MagDigits(t)) IN IF v[1] = "U" THEN <<"huge", 0>> ELSE <<"int", v>>
FltTok(a, b) ==
  IF Len(a) + Len(b) > 62 THEN <<"huge", 0>>
  ELSE LET v == FromDecimal(a, b) IN IF v[1] = "U" THEN <<"big", 0>> ELSE <<"flt", v>>

\* Tokens are <<kind, value, line>>.  The lexer reads one character at a time;
\* its state is [m: mode, a: where the current token (or string segment) began,
\* b: where a fraction began, v: string text so far, q: quote, x: bad escape
\* seen, l: line of the current token, ln: current line, T: tokens].  A string
\* that never ends is the token kind "lexerr".
Emit_(r, k, v) == [r EXCEPT !.m = "", !.T = Append(@, <<k, v, r.l>>)]
Idle_(r, i, c) ==
  IF c = "" THEN r
  ELSE IF c = "\n" THEN [r EXCEPT !.ln = @ + 1]
  ELSE IF c \in Blanks THEN r
  ELSE IF c = "#" THEN [r EXCEPT !.m = "c"]
  ELSE LET s == [r EXCEPT !.a = i, !.l = r.ln] IN
    IF c \in Alpha THEN [s EXCEPT !.m = "w"]
    ELSE IF c \in Digits THEN [s EXCEPT !.m = "n"]
    ELSE IF c = "'" \/ c = "\"" THEN [s EXCEPT !.m = "q", !.q = c, !.a = i + 1, !.v = "", !.x = FALSE]
    ELSE IF c \in OperCh THEN [s EXCEPT !.m = "o", !.q = c]
    ELSE IF c \in {"(", ")", "[", "]", "{", "}", ":", ";", ".", "?"} THEN Emit_(s, c, c)
    ELSE Emit_(s, "junk", c)
NumEnd(r, t) == Emit_(r, t[1], t[2])
LexCh(s, r, i) ==
  LET c == At(s, i)
      w == SubSeq(s, r.a, i - 1) IN
  CASE r.m = ""  -> Idle_(r, i, c)
    [] r.m = "w" -> IF c \in Alnum THEN r ELSE Idle_(Emit_(r, IF w \in Keywords THEN w ELSE "id", w), i, c)
    [] r.m = "n" -> IF c \in Digits THEN r
                    ELSE IF c = "." THEN [r EXCEPT !.m = ".", !.b = i]
                    ELSE Idle_(NumEnd(r, IntTok(w)), i, c)
    [] r.m = "." -> IF c \in Digits THEN [r EXCEPT !.m = "f"]
                    ELSE Idle_(Emit_(NumEnd(r, IntTok(SubSeq(s, r.a, i - 2))), ".", "."), i, c)
    [] r.m = "f" -> IF c \in Digits THEN r
                    ELSE Idle_(NumEnd(r, FltTok(SubSeq(s, r.a, r.b - 1), SubSeq(s, r.b + 1, i - 1))), i, c)
    [] r.m = "q" -> IF c = "" THEN Emit_(r, "lexerr", "")
                    ELSE IF c = r.q THEN LET v == r.v \o w IN
                      Emit_(r, IF r.x THEN "badstr" ELSE IF Len(v) > 1000 /\ ByteLen(v) > 4095 THEN "huge" ELSE "str", v)
                    ELSE IF c = "\\" THEN [r EXCEPT !.m = "e", !.v = @ \o w]
                    ELSE IF c \in NulCh THEN [r EXCEPT !.x = TRUE]      \* a literal cannot hold the null character
                    ELSE IF c = "\n" THEN [r EXCEPT !.ln = @ + 1] ELSE r
    [] r.m = "e" -> IF c = "" THEN Emit_(r, "lexerr", "")
                    ELSE IF Esc(c) # "" THEN [r EXCEPT !.m = "q", !.v = @ \o Esc(c), !.a = i + 1]
                    ELSE [r EXCEPT !.m = "q", !.a = i, !.x = TRUE, !.ln = IF c = "\n" THEN @ + 1 ELSE @]
    [] r.m = "c" -> IF c = "\n" THEN Idle_([r EXCEPT !.m = ""], i, c) ELSE r
    [] r.m = "o" -> IF r.q \o c \in Oper2 THEN Emit_(r, r.q \o c, r.q \o c)
                    ELSE Idle_(Emit_(r, IF r.q \in Oper1 THEN r.q ELSE "junk", r.q), i, c)
Lex(s) ==
  LET r == FoldLeft(LAMBDA acc, i : LexCh(s, acc, i),
                    [m |-> "", a |-> 1, b |-> 1, v |-> "", q |-> "", x |-> FALSE, l |-> 1, ln |-> 1, T |-> <<>>],
                    Upto(Len(s) + 1))
  IN Append(r.T, <<"done", "", r.ln>>)

(***************************************************************************)
(* Parser.  Every parse operator returns <<node, next position>>.          *)
(***************************************************************************)
Fail == <<<<"fail">>, 0>>
Kd(T, p) == T[p][1]
Ln(T, p) == T[p][3]

BinOps == {"+","-","*","/","%","<",">","<=",">=","==","!=","and","or","=",",","|"}
Prec(k) == CASE k = "=" -> 0 [] k = "|" -> 1 [] k = "or" -> 2 [] k = "and" -> 3
             [] k \in {"<",">","<=",">=","==","!="} -> 4 [] k \in {"+","-"} -> 5
             [] k \in {"*","/","%"} -> 6 [] k = "," -> 7 [] OTHER -> -1
StmtExprStart == {"(","[","+","-","?","int","flt","big","huge","str","badstr","id","not","none","true","false"}

RECURSIVE PExpr(_, _, _, _), PExpr2(_, _, _, _, _, _), PInner(_, _, _, _, _, _), PPrefix(_, _), PPostfix(_, _, _), PPrimary(_, _),
          PItems(_, _), PMap(_, _), PArgs(_, _), PStmt(_, _), PComp(_, _, _), PFun(_, _),
          PParams(_, _, _)

PExpr(T, p, tup, asg) ==
  LET l == PPrefix(T, p) IN
  IF l[2] = 0 THEN Fail ELSE PExpr2(T, l[1], l[2], -1, tup, asg)

\* precedence climbing; "=" is right associative
PExpr2(T, left, p, minp, tup, asg) ==
  LET op == Kd(T, p) IN
  IF op \notin BinOps \/ Prec(op) < minp \/ (op = "," /\ ~tup) \/ (op = "=" /\ ~asg)
    THEN <<left, p>>
  ELSE LET r0 == PPrefix(T, p + 1) IN
    IF r0[2] = 0 THEN Fail
    ELSE LET r == PInner(T, r0[1], r0[2], op, tup, asg) IN
      IF r[2] = 0 THEN Fail
      ELSE PExpr2(T, <<IF op = "," THEN "pair" ELSE IF op = "=" THEN "ass" ELSE "bin", left[2], op, left, r[1]>>,
                  r[2], minp, tup, asg)

PInner(T, right, p, op, tup, asg) ==
  LET k == Kd(T, p) IN
  IF k \in BinOps /\ (Prec(k) > Prec(op) \/ (Prec(k) = Prec(op) /\ k = "=")) /\ ~(k = "," /\ ~tup) /\ ~(k = "=" /\ ~asg)
  THEN LET r == PExpr2(T, right, p, Prec(op) + (IF Prec(op) < Prec(k) THEN 1 ELSE 0), tup, asg) IN
       IF r[2] = 0 THEN Fail ELSE PInner(T, r[1], r[2], op, tup, asg)
  ELSE <<right, p>>

PPrefix(T, p) ==
  LET k == Kd(T, p) IN
  IF k \in {"+", "-", "?", "not"} THEN
    LET r == PPrefix(T, p + 1) IN
    IF r[2] = 0 THEN Fail ELSE <<<<"un", Ln(T, p), k, r[1]>>, r[2]>>
  ELSE LET r == PPrimary(T, p) IN IF r[2] = 0 THEN Fail ELSE PPostfix(T, r[1], r[2])

PPostfix(T, node, p) ==
  LET k == Kd(T, p) IN
  IF k = "." \/ k = "->" THEN
    IF Kd(T, p + 1) # "id" THEN Fail
    ELSE PPostfix(T, <<IF k = "." THEN "sel" ELSE "arw", node[2], node, <<"str", Ln(T, p + 1), T[p + 1][2]>>>>, p + 2)
  ELSE IF k = "[" THEN
    LET r == PItems(T, p + 1) IN
    IF r[2] = 0 \/ r[1] = <<>> THEN Fail
    ELSE PPostfix(T, <<"sel", node[2], node, IF Len(r[1]) = 1 THEN r[1][1] ELSE <<"list", Ln(T, p), r[1]>>>>, r[2])
  ELSE IF k = "(" THEN
    LET r == PArgs(T, p + 1) IN
    IF r[2] = 0 THEN Fail ELSE PPostfix(T, <<"call", Ln(T, p), node, r[1]>>, r[2])
  ELSE <<node, p>>

\* Repetition: Next(state) is applied while the state says "more"; a state is
\* [p: position (0 when failed), more: BOOLEAN, ...].
Repeat(T, st, Next(_)) ==
  FoldLeft(LAMBDA r, i : IF r.more THEN Next(r) ELSE r, st, Upto(Len(T) - st.p + 1))
Failed(r) == [r EXCEPT !.p = 0, !.more = FALSE]

PSeq(T, p, end) ==        \* expressions separated by commas, up to the closing token
  LET Next(r) ==
        LET e == PExpr(T, r.p, FALSE, TRUE) IN
        IF e[2] = 0 THEN Failed(r)
        ELSE LET s == [r EXCEPT !.acc = Append(@, e[1]), !.p = e[2] + 1] IN
          IF Kd(T, e[2]) = end THEN [s EXCEPT !.more = FALSE]
          ELSE IF Kd(T, e[2]) = "," THEN s ELSE Failed(r)
      z == [p |-> p, more |-> TRUE, acc |-> <<>>]
  IN IF Kd(T, p) = end THEN <<<<>>, p + 1>>
     ELSE LET r == Repeat(T, z, Next) IN IF r.p = 0 THEN Fail ELSE <<r.acc, r.p>>
PItems(T, p) == PSeq(T, p, "]")
PArgs(T, p) == PSeq(T, p, ")")

PMap(T, p) ==             \* map entries up to "}"
  LET More(r, k, v, q) == [r EXCEPT !.ks = Append(@, k), !.vs = Append(@, v), !.p = q]
      Next(r) ==
        IF Kd(T, r.p) = "fun" THEN
          LET f == PFun(T, r.p) IN
          IF f[2] = 0 THEN Failed(r)
          ELSE LET s == More(r, <<"str", f[1][2], f[1][3]>>, f[1][4], f[2]) IN
               IF Kd(T, f[2]) = "}" THEN [s EXCEPT !.p = @ + 1, !.more = FALSE] ELSE s
        ELSE LET k == IF Kd(T, r.p) = "id" /\ Kd(T, r.p + 1) = ":" THEN <<<<"str", Ln(T, r.p), T[r.p][2]>>, r.p + 1>>
                      ELSE PExpr(T, r.p, FALSE, TRUE) IN
          IF k[2] = 0 \/ Kd(T, k[2]) # ":" THEN Failed(r)
          ELSE LET v == PExpr(T, k[2] + 1, FALSE, TRUE) IN
            IF v[2] = 0 THEN Failed(r)
            ELSE LET s == More(r, k[1], v[1], v[2] + 1) IN
                 IF Kd(T, v[2]) = "}" THEN [s EXCEPT !.more = FALSE]
                 ELSE IF Kd(T, v[2]) = "," THEN s ELSE Failed(r)
      z == [p |-> p, more |-> TRUE, ks |-> <<>>, vs |-> <<>>]
  IN IF Kd(T, p) = "}" THEN <<<<<<>>, <<>>>>, p + 1>>
     ELSE LET r == Repeat(T, z, Next) IN IF r.p = 0 THEN Fail ELSE <<<<r.ks, r.vs>>, r.p>>

PPrimary(T, p) ==
  LET k == Kd(T, p)
      l == Ln(T, p) IN
  CASE k = "int" -> <<<<"int", l, T[p][2]>>, p + 1>>
    [] k = "flt" -> <<<<"flt", l, T[p][2]>>, p + 1>>
    [] k = "big" -> <<<<"big", l>>, p + 1>>
    [] k = "str" -> <<<<"str", l, T[p][2]>>, p + 1>>
    [] k = "id"  -> <<<<"id", l, T[p][2]>>, p + 1>>
    [] k \in {"none", "true", "false"} -> <<<<k, l>>, p + 1>>
    [] k = "("   -> LET r == PExpr(T, p + 1, TRUE, TRUE) IN
                    IF r[2] = 0 \/ Kd(T, r[2]) # ")" THEN Fail ELSE <<r[1], r[2] + 1>>
    [] k = "["   -> LET r == PItems(T, p + 1) IN
                    IF r[2] = 0 THEN Fail ELSE <<<<"list", l, r[1]>>, r[2]>>
    [] k = "{"   -> LET r == PMap(T, p + 1) IN
                    IF r[2] = 0 THEN Fail ELSE <<<<"map", l, r[1][1], r[1][2]>>, r[2]>>
    [] OTHER     -> Fail

\* parameters: <<name, type node or <<>>, default node or <<>>, line>>
PParams(T, p, acc) ==
  IF acc = <<>> /\ Kd(T, p) = ")" THEN <<acc, p + 1>>
  ELSE IF Kd(T, p) # "id" THEN Fail
  ELSE LET ty == IF Kd(T, p + 1) = ":" THEN PExpr(T, p + 2, FALSE, FALSE) ELSE <<<<>>, p + 1>> IN
    IF ty[2] = 0 THEN Fail
    ELSE LET df == IF Kd(T, ty[2]) = "=" THEN PExpr(T, ty[2] + 1, FALSE, TRUE) ELSE <<<<>>, ty[2]>> IN
      IF df[2] = 0 THEN Fail
      ELSE LET acc2 == Append(acc, <<T[p][2], ty[1], df[1], Ln(T, df[2])>>) IN
        IF Kd(T, df[2]) = ")" THEN <<acc2, df[2] + 1>>
        ELSE IF Kd(T, df[2]) = "," THEN PParams(T, df[2] + 1, acc2) ELSE Fail

PFun(T, p) ==             \* <<"fun", line, name, <<"fn", line, params, body>>>>
  IF Kd(T, p + 1) # "id" THEN Fail
  ELSE IF Kd(T, p + 2) # "(" THEN Fail
  ELSE LET a == PParams(T, p + 3, <<>>) IN
    IF a[2] = 0 THEN Fail
    ELSE LET b == PStmt(T, a[2]) IN
      IF b[2] = 0 THEN Fail
      ELSE <<<<"fun", Ln(T, p), T[p + 1][2], <<"fn", Ln(T, p), a[1], b[1]>>>>, b[2]>>

PComp(T, p, end) ==       \* statements up to the closing token
  LET Next(r) ==
        IF Kd(T, r.p) = end THEN [r EXCEPT !.p = @ + 1, !.more = FALSE]
        ELSE IF Kd(T, r.p) = "done" THEN Failed(r)
        ELSE LET e == PStmt(T, r.p) IN
             IF e[2] = 0 THEN Failed(r) ELSE [r EXCEPT !.acc = Append(@, e[1]), !.p = e[2]]
      r == Repeat(T, [p |-> p, more |-> TRUE, acc |-> <<>>], Next)
  IN IF r.p = 0 THEN Fail ELSE <<r.acc, r.p>>

PStmt(T, p) ==
  LET k == Kd(T, p)
      l == Ln(T, p) IN
  CASE k \in StmtExprStart ->
        LET e == PExpr(T, p, TRUE, TRUE) IN
        IF e[2] = 0 \/ Kd(T, e[2]) # ";" THEN Fail ELSE <<<<"expr", l, e[1]>>, e[2] + 1>>
    [] k = "{" -> LET c == PComp(T, p + 1, "}") IN
                  IF c[2] = 0 THEN Fail ELSE <<<<"comp", l, c[1]>>, c[2]>>
    [] k = "break" -> IF Kd(T, p + 1) # ";" THEN Fail ELSE <<<<"break", l>>, p + 2>>
    [] k = "return" ->
        LET e == PExpr(T, p + 1, TRUE, TRUE) IN
        IF e[2] = 0 \/ Kd(T, e[2]) # ";" THEN Fail ELSE <<<<"ret", l, e[1]>>, e[2] + 1>>
    [] k = "fun" -> PFun(T, p)
    [] k = "if" ->
        LET c == PExpr(T, p + 1, TRUE, TRUE) IN
        IF c[2] = 0 \/ Kd(T, c[2]) # ":" THEN Fail
        ELSE LET t == PStmt(T, c[2] + 1) IN
          IF t[2] = 0 THEN Fail
          ELSE IF Kd(T, t[2]) = "else" THEN
            LET f == PStmt(T, t[2] + 1) IN
            IF f[2] = 0 THEN Fail ELSE <<<<"if", l, c[1], t[1], f[1]>>, f[2]>>
          ELSE <<<<"if", l, c[1], t[1], <<>>>>, t[2]>>
    [] k = "while" ->
        LET c == PExpr(T, p + 1, TRUE, TRUE) IN
        IF c[2] = 0 \/ Kd(T, c[2]) # ":" THEN Fail
        ELSE LET b == PStmt(T, c[2] + 1) IN
          IF b[2] = 0 THEN Fail ELSE <<<<"while", l, c[1], b[1]>>, b[2]>>
    [] k = "do" ->
        LET b == PStmt(T, p + 1) IN
        IF b[2] = 0 \/ Kd(T, b[2]) # "while" THEN Fail
        ELSE LET c == PExpr(T, b[2] + 1, TRUE, TRUE) IN
          IF c[2] = 0 \/ Kd(T, c[2]) # ";" THEN Fail ELSE <<<<"dow", l, b[1], c[1]>>, c[2] + 1>>
    [] OTHER -> Fail

\* <<"ok", statements>> or <<"syntax">>; <<"any">>: rejected, category not claimed
HasTok(T, ks) == \E i \in 1..Len(T) : T[i][1] \in ks
ParseProgram(src) ==
  LET T == Lex(src) IN
  IF HasTok(T, {"lexerr"}) THEN <<"syntax">>
  ELSE LET r == PComp(T, 1, "done") IN
       IF r[2] # 0 THEN <<"ok", r[1]>>
       ELSE IF HasTok(T, {"huge"}) THEN <<"any">> ELSE <<"syntax">>
=============================================================================
