------------------------------- MODULE NojaAsm -------------------------------
(***************************************************************************)
(* The assembly notation: Assemble maps a text to the instructions of the   *)
(* machine, or refuses it as a whole.  A statement is                       *)
(*      [label :] OPCODE [operand {, operand}]                              *)
(* and statements end with ';' or at the end of the text.  Operands are      *)
(* integers, floats, "strings" and labels; a label stands for the index of   *)
(* the instruction it is put in front of, and is defined exactly once.       *)
(***************************************************************************)
EXTENDS NojaCompile, FiniteSets

\* operands of every instruction: S string, I integer, F float, X a label
Sig == [x \in {"NOPE", "POS", "NEG", "NOT", "ADD", "SUB", "MUL", "DIV", "MOD", "EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ",
               "NLB", "STP", "SELECT", "SELECT2", "INSERT", "INSERT2", "PUSHTRU", "PUSHFLS", "PUSHNNE", "PUSHTYP", "PUSHNNETYP", "EXIT"} |-> <<>>]
       @@ [x \in {"ASS", "PUSHSTR", "PUSHVAR"} |-> <<"S">>]
       @@ [x \in {"POP", "PUSHINT", "PUSHLST", "PUSHMAP", "RETURN"} |-> <<"I">>]
       @@ [x \in {"JUMP", "JUMPIFANDPOP", "JUMPIFNOTANDPOP"} |-> <<"X">>]
       @@ ("PUSHFLT" :> <<"F">>) @@ ("CHECKTYPE" :> <<"I", "S">>) @@ ("CALL" :> <<"I", "I">>) @@ ("PUSHFUN" :> <<"X", "I", "S">>)

AsmEsc(c) == CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r" [] c = "\"" -> "\"" [] c = "\\" -> "\\" [] OTHER -> ""

(***************************************************************************)
(* Tokens <<kind, value, line>>: w word, i integer, f float, s string, the  *)
(* punctuation marks, and x for anything else.  State as for Lex.            *)
(***************************************************************************)
AIdle(r, i, c) ==
  IF c = "" \/ c \in Blanks THEN (IF c = "\n" THEN [r EXCEPT !.ln = @ + 1] ELSE r)
  ELSE LET s == [r EXCEPT !.a = i, !.l = r.ln] IN
    IF c \in Alpha THEN [s EXCEPT !.m = "w"]
    ELSE IF c \in Digits THEN [s EXCEPT !.m = "n", !.q = ""]
    ELSE IF c \in {"+", "-"} THEN [s EXCEPT !.m = "+", !.q = c, !.a = i + 1]
    ELSE IF c = "\"" THEN [s EXCEPT !.m = "q", !.a = i + 1, !.v = ""]
    ELSE Emit_(s, IF c \in {":", ";", ","} THEN c ELSE "x", c)
ANeg(v) == IF v[1] = "i" THEN <<"i", -v[2]>> ELSE IF v[1] = "I" THEN <<"I", TRUE, v[3]>> ELSE v
AInt(r, t) == LET k == IntTok(t) IN
  IF k[1] = "huge" THEN Emit_(r, "x", "") ELSE Emit_(r, "i", IF r.q = "-" THEN ANeg(k[2]) ELSE k[2])
AFlt(r, t, u) == LET k == FltTok(t, u) IN
  IF k[1] # "flt" THEN Emit_(r, "f?", 0) ELSE Emit_(r, "f", IF r.q = "-" THEN FltNeg(k[2]) ELSE k[2])
AsmCh(s, r, i) ==
  LET c == At(s, i)
      w == SubSeq(s, r.a, i - 1) IN
  CASE r.m = ""  -> AIdle(r, i, c)
    [] r.m = "w" -> IF c \in Alnum THEN r ELSE AIdle(Emit_(r, "w", w), i, c)
    [] r.m = "+" -> IF c \in Digits THEN [r EXCEPT !.m = "n"] ELSE AIdle(Emit_(r, "x", ""), i, c)
    [] r.m = "n" -> IF c \in Digits THEN r
                    ELSE IF c = "." THEN [r EXCEPT !.m = ".", !.b = i] ELSE AIdle(AInt(r, w), i, c)
    [] r.m = "." -> IF c \in Digits THEN [r EXCEPT !.m = "f"] ELSE AIdle(Emit_(r, "x", "."), i, c)
    [] r.m = "f" -> IF c \in Digits THEN r ELSE AIdle(AFlt(r, SubSeq(s, r.a, r.b - 1), SubSeq(s, r.b + 1, i - 1)), i, c)
    [] r.m = "q" -> IF c = "" THEN Emit_(r, "x", "")
                    ELSE IF c = "\"" THEN LET v == r.v \o w IN Emit_(r, IF Len(v) > 200 /\ ByteLen(v) > 1024 THEN "x" ELSE "s", v)
                    ELSE IF c = "\\" THEN [r EXCEPT !.m = "e", !.v = @ \o w]
                    ELSE IF c = "\n" THEN [r EXCEPT !.ln = @ + 1] ELSE r
    [] r.m = "e" -> IF c # "" /\ AsmEsc(c) # "" THEN [r EXCEPT !.m = "q", !.v = @ \o AsmEsc(c), !.a = i + 1]
                    ELSE Emit_(r, "x", "")
AsmLex(s) ==
  LET r == FoldLeft(LAMBDA acc, i : AsmCh(s, acc, i),
                    [m |-> "", a |-> 1, b |-> 1, v |-> "", q |-> "", x |-> FALSE, l |-> 1, ln |-> 1, T |-> <<>>],
                    Upto(Len(s) + 1))
  IN r.T

(***************************************************************************)
(* Statements <<opcode, line, operands>> and label definitions <<name, n>>;  *)
(* m is what may come next: a statement, its opcode, an operand or the end,  *)
(* an operand, a separator; "bad" once the text is refused.                  *)
(***************************************************************************)
AOperand(r, t) ==
  IF t[1] \in {"w", "i", "f", "f?", "s"} THEN [r EXCEPT !.m = "sep", !.ops = Append(@, t)] ELSE [r EXCEPT !.m = "bad"]
AClose(r) == [r EXCEPT !.m = "stmt", !.I = Append(@, <<r.w, r.l, r.ops>>), !.ops = <<>>]
AStep(r, t) ==
  CASE r.m = "stmt" -> IF t[1] = "w" THEN [r EXCEPT !.m = "word", !.w = t[2], !.l = t[3]] ELSE [r EXCEPT !.m = "bad"]
    [] r.m = "word" -> IF t[1] = ":" THEN [r EXCEPT !.m = "op", !.L = Append(@, <<r.w, Len(r.I)>>)]
                       ELSE IF t[1] = ";" THEN AClose(r) ELSE AOperand(r, t)
    [] r.m = "op"   -> IF t[1] = "w" THEN [r EXCEPT !.m = "first", !.w = t[2], !.l = t[3]] ELSE [r EXCEPT !.m = "bad"]
    [] r.m = "first" -> IF t[1] = ";" THEN AClose(r) ELSE AOperand(r, t)
    [] r.m = "sep"  -> IF t[1] = ";" THEN AClose(r) ELSE IF t[1] = "," THEN [r EXCEPT !.m = "opnd"] ELSE [r EXCEPT !.m = "bad"]
    [] r.m = "opnd" -> AOperand(r, t)
    [] OTHER        -> r

Fits(k, t) == CASE k = "S" -> t[1] = "s" [] k = "I" -> t[1] \in {"i", "w"} [] k = "F" -> t[1] \in {"f", "f?", "w"} [] OTHER -> t[1] = "w"
Whole(L, t) == IF t[1] = "w" THEN <<"i", L[CHOOSE i \in 1..Len(L) : L[i][1] = t[2]][2]>> ELSE t[2]
Small(v) == v[1] = "i" /\ v[2] >= 0 /\ v[2] <= 1000
\* the instruction of a statement; UNSUP when its effect is not specified
Instr(L, x) ==
  LET op == x[1]
      ln == x[2]
      o == x[3]
      W(i) == Whole(L, o[i])
      no == <<"UNSUP", ln, 0, 0, 0>> IN
  CASE Len(o) = 0 -> <<op, ln, 0, 0, 0>>
    [] op = "PUSHINT" -> <<op, ln, W(1), 0, 0>>
    [] op = "PUSHFLT" -> IF o[1][1] = "f" THEN <<op, ln, o[1][2], 0, 0>> ELSE no
    [] op \in {"ASS", "PUSHSTR", "PUSHVAR"} -> <<op, ln, o[1][2], 0, 0>>
    [] op \in {"POP", "PUSHLST", "PUSHMAP", "RETURN"} -> IF Small(W(1)) THEN <<op, ln, W(1)[2], 0, 0>> ELSE no
    [] op \in JumpOps \ {"PUSHFUN"} -> <<op, ln, W(1)[2] + 1, 0, 0>>
    [] op = "PUSHFUN" -> IF Small(W(2)) THEN <<op, ln, W(1)[2] + 1, W(2)[2], o[3][2]>> ELSE no
    [] op = "CHECKTYPE" -> IF Small(W(1)) THEN <<op, ln, W(1)[2], o[2][2], 0>> ELSE no
    [] op = "CALL" -> IF Small(W(1)) /\ Small(W(2)) /\ W(2)[2] > 0 THEN <<op, ln, W(1)[2], W(2)[2], 0>> ELSE no

\* <<"ok", code>> or <<"err", category, message>>
Assemble(src) ==
  LET T == AsmLex(src)
      r0 == FoldLeft(AStep, [m |-> "stmt", w |-> "", l |-> 0, ops |-> <<>>, I |-> <<>>, L |-> <<>>], T)
      r == IF r0.m \in {"word", "first", "sep"} THEN AClose(r0) ELSE r0
      known == {r.L[i][1] : i \in 1..Len(r.L)}
      OkStmt(x) == /\ x[1] \in DOMAIN Sig
                   /\ Len(x[3]) = Len(Sig[x[1]])
                   /\ \A j \in 1..Len(x[3]) : Fits(Sig[x[1]][j], x[3][j]) /\ (x[3][j][1] = "w" => x[3][j][2] \in known)
  IN IF r.m # "stmt" \/ Cardinality(known) # Len(r.L) \/ \E i \in 1..Len(r.I) : ~OkStmt(r.I[i])
     THEN <<"err", "any", "">>
     ELSE <<"ok", Tup([i \in 1..Len(r.I) |-> Instr(r.L, r.I[i])])>>
=============================================================================
