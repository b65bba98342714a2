------------------------------ MODULE NojaTrace ------------------------------
(***************************************************************************)
(* Trace validation.  The input holds compiled code of the implementation   *)
(* and the states it went through while running it: after every instruction *)
(* <<active calls, code, next instruction, variables, output length,        *)
(* operands, all variables or 0>>.  A trace is accepted when every state    *)
(* follows from the one before by one Step of the machine.                  *)
(*                                                                         *)
(* Apart from that, Sound decides for a piece of code, over all its paths,  *)
(* that jumps stay inside, every instruction finds its operands, however    *)
(* it is reached it finds as many, and RETURN hands over exactly what is    *)
(* there.                                                                   *)
(***************************************************************************)
EXTENDS NojaRun

VARIABLES i, bad
tvars == <<scn, fill, pre, chunk, cx, s, i, bad>>

(***************************************************************************)
(* What a trace shows of a value                                            *)
(***************************************************************************)
Shallow(h, v) ==
  CASE v[1] \in {"n", "b", "i", "I", "s", "T"} -> v
    [] v[1] \in {"f", "F"} -> v
    [] v[1] = "x" -> <<"x", "native function">>
    [] v[1] = "m" -> <<"x", "static map">>
    [] v[1] = "any" -> <<"t", Text(h, v)>>
    [] v[1] = "r" -> LET o == h[v[2]] IN
       CASE o.t = "L" -> <<"L", Len(o.e)>> [] o.t = "M" -> <<"M", Len(o.k)>> [] o.t = "B" -> <<"B", o.n>>
         [] o.t = "F" -> <<"x", "function">> [] o.t = "C" -> <<"x", "Closure">>
         [] o.t = "H" -> <<"File">> [] o.t = "D" -> <<"Dir">> [] OTHER -> <<"t", Text(h, v)>>
Agrees(h, v, x) ==
  LET y == Shallow(h, v) IN
  IF x[1] = "?" THEN TRUE ELSE x[1] = y[1] /\ x = y
OutLen(t) == FoldLeft(LAMBDA acc, x : acc + ByteLen(x), 0, t.out)

Matches(t, e) ==
  LET f == TopFr(t) IN
  /\ e[1] = Len(t.fr) /\ e[2] = f.c /\ e[3] = f.p - 1
  /\ e[4] = Len(t.h[f.l].k) /\ e[5] = OutLen(t)
  /\ Len(e[6]) = Len(f.o) /\ \A j \in 1..Len(f.o) : Agrees(t.h, f.o[j], e[6][j])
  /\ e[7] # <<>> => \A j \in 1..Len(e[7]) : Agrees(t.h, t.h[f.l].k[j], e[7][j][1]) /\ Agrees(t.h, t.h[f.l].v[j], e[7][j][2])
Seen(t) == IF t.st # "run" THEN <<t.st, t.cat, t.msg>>
           ELSE LET f == TopFr(t) IN
             <<Len(t.fr), f.c, f.p - 1, Len(t.h[f.l].k), OutLen(t), Tup([j \in 1..Len(f.o) |-> Shallow(t.h, f.o[j])])>>

(***************************************************************************)
(* Soundness of code                                                        *)
(***************************************************************************)
\* operands taken and given
Takes(x) == CASE x[1] \in {"POP"} -> x[3] [] x[1] = "CALL" -> x[3] + 1 [] x[1] = "RETURN" -> x[3] [] OTHER -> Needs(x[1], x)
Gain(x) ==
  CASE x[1] \in {"PUSHINT", "PUSHFLT", "PUSHSTR", "PUSHVAR", "PUSHTRU", "PUSHFLS", "PUSHNNE", "PUSHFUN", "PUSHLST", "PUSHMAP",
                 "PUSHTYP", "PUSHNNETYP", "UNSUP"} -> 1
    [] x[1] \in {"ADD", "SUB", "MUL", "DIV", "MOD", "EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ", "STP", "SELECT", "CHECKTYPE",
                 "JUMPIFANDPOP", "JUMPIFNOTANDPOP"} -> -1
    [] x[1] \in {"INSERT", "INSERT2"} -> -2
    [] x[1] = "POP" -> -x[3]
    [] x[1] = "CALL" -> x[4] - x[3] - 1
    [] OTHER -> 0
Follows(p, x) == CASE x[1] \in {"RETURN", "EXIT"} -> {} [] x[1] = "JUMP" -> {x[3]}
                   [] x[1] \in {"JUMPIFANDPOP", "JUMPIFNOTANDPOP"} -> {x[3], p + 1} [] OTHER -> {p + 1}
Entries_(code) == {<<1, 0>>} \cup {<<code[p][3], code[p][4]>> : p \in {p \in 1..Len(code) : code[p][1] = "PUSHFUN"}}
\* the <<instruction, operands there>> pairs some path reaches, until nothing new or something wrong
RECURSIVE Depths(_, _, _)
Wrong(code, at) ==
  \/ \E a \in at : a[1] < 1 \/ a[1] > Len(code) \/ a[2] > 40
  \/ \E a \in at : a[2] < Takes(code[a[1]]) \/ (code[a[1]][1] = "RETURN" /\ a[2] # code[a[1]][3])
Depths(code, seen, todo) ==
  IF todo = {} THEN (IF \E a, b \in seen : a[1] = b[1] /\ a[2] # b[2] THEN <<"unbalanced", CHOOSE a \in seen : \E b \in seen : a[1] = b[1] /\ a[2] # b[2]>> ELSE <<"sound">>)
  ELSE IF Wrong(code, todo) THEN <<"wrong", CHOOSE a \in todo : Wrong(code, {a})>>
  ELSE LET all == seen \cup todo
           nxt == UNION {{<<q, a[2] + Gain(code[a[1]])>> : q \in Follows(a[1], code[a[1]])} : a \in todo}
       IN Depths(code, all, nxt \ all)
Sound(code) == Depths(code, {}, Entries_(code))

(***************************************************************************)
(* Behaviour                                                                *)
(***************************************************************************)
LibOf(code) ==
  LET s0 == Start(<<EmptyMap>>, 1, "")
      t == Run(s0, [code |-> <<code>>, bad |-> <<<<>>>>], 10000)
      ex == t.h[t.ret[1][2]]
  IN [code |-> code, h |-> [t.h EXCEPT ![1] = ex]]

TInit ==
  LET d == TLCEval(In)
      p == TLCEval(LibOf(d.lib))
  IN /\ pre = p
     /\ chunk = d.chunk
     /\ \E k \in 1..Len(d.scns) : scn = d.scns[k]
     /\ fill = <<>>
     /\ cx = [code |-> <<>>, bad |-> <<>>]
     /\ s = Idle
     /\ i = 0 /\ bad = <<>>

TLoad ==
  /\ s.st = "load"
  /\ LET snd == Tup([k \in 1..Len(scn.codes) |-> Sound(scn.codes[k])])
         t == Start(pre.h, 2, scn.inp) IN
     /\ cx' = [code |-> <<pre.code>> \o scn.codes, bad |-> [k \in 1..(Len(scn.codes) + 1) |-> <<>>]]
     /\ IF scn.sound /\ \E k \in 1..Len(snd) : snd[k] # <<"sound">>
        THEN bad' = <<"code", snd>> /\ s' = [t EXCEPT !.st = "checked"] /\ i' = 0
        ELSE IF Len(scn.ev) = 0 THEN bad' = <<>> /\ i' = 0 /\ s' = [t EXCEPT !.st = "checked"]
        ELSE IF ~Matches(t, scn.ev[1]) THEN bad' = <<"first state", Seen(t)>> /\ i' = 1 /\ s' = [t EXCEPT !.st = "checked"]
        ELSE bad' = <<>> /\ i' = 1 /\ s' = t
  /\ UNCHANGED <<scn, fill, pre, chunk>>

\* one state of the trace
TStep(a) ==
  LET t == Step(a.s, cx)
      n == a.i + 1 IN
  IF a.s.st # "run" THEN a
  ELSE IF t.st = "unsup" THEN [a EXCEPT !.s = t]
  ELSE IF t.st = "run"
  THEN IF n > Len(scn.ev)
       THEN (IF scn.cut THEN [a EXCEPT !.s.st = "checked"] ELSE [a EXCEPT !.s.st = "checked", !.bad = <<"the trace ends", Seen(t)>>])
       ELSE IF Matches(t, scn.ev[n]) THEN [a EXCEPT !.s = t, !.i = n]
       ELSE [a EXCEPT !.s.st = "checked", !.i = n, !.bad = <<"state", Seen(t)>>]
  ELSE IF n <= Len(scn.ev) THEN [a EXCEPT !.s.st = "checked", !.i = n, !.bad = <<"state after the end", Seen(t)>>]
  ELSE IF scn.end[1] # t.st \/ (t.st = "err" /\ t.cat # "any" /\ (t.cat # scn.end[2] \/ (t.msg # "" /\ t.msg # scn.end[3])))
  THEN [a EXCEPT !.s.st = "checked", !.bad = <<"end", Seen(t)>>]
  ELSE [a EXCEPT !.s = t]
TGo ==
  /\ s.st = "run"
  /\ LET r == FoldLeft(LAMBDA a, k : TStep(a), [s |-> s, i |-> i, bad |-> bad], Upto(chunk))
     IN s' = r.s /\ i' = r.i /\ bad' = r.bad
  /\ UNCHANGED <<scn, fill, pre, chunk, cx>>
TEmit ==
  /\ s.st \in {"done", "err", "unsup", "checked"}
  /\ CSVWrite("%1$s", <<ToJson([id |-> scn.id, st |-> s.st, i |-> i, bad |-> bad])>>, OutFile)
  /\ s' = [Idle EXCEPT !.st = "end"]
  /\ UNCHANGED <<scn, fill, pre, chunk, cx, i, bad>>
TNext == TLoad \/ TGo \/ TEmit
TSpec == TInit /\ [][TNext]_tvars
TView == <<scn.id, s.st, i>>
=============================================================================
