------------------------------- MODULE NojaObs -------------------------------
(***************************************************************************)
(* The machine of NojaRun advanced one instruction at a time, together with *)
(* what a host can see of the intermediate states:                          *)
(*   hist   the sequence of distinct <<output length, active functions>>    *)
(*          between instructions (what a callback that stops the program    *)
(*          there finds);                                                    *)
(*   calls  how often each function body was entered;                       *)
(*   live   at the start and whenever the output has grown, bounds on the   *)
(*          number of objects the program can still reach, and the number   *)
(*          of open files and directories among them;                       *)
(*   hi     the most operands that were on the stack at once.               *)
(***************************************************************************)
EXTENDS NojaRun

VARIABLE ob
ovars == <<scn, fill, pre, chunk, cx, s, ob>>

\* everything an object refers to
AllRefs(o) ==
  CASE o.t = "F" -> {o.u}
    [] o.t = "C" -> {o.m} \cup (IF o.up > 0 THEN {o.up} ELSE {})
    [] OTHER -> Refs(o)
RECURSIVE Closure(_, _, _)
Closure(h, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET nxt == UNION {AllRefs(h[a]) : a \in todo}
       IN Closure(h, seen \cup todo, nxt \ (seen \cup todo))

\* roots: operands, local variables and enclosing scopes of the active frames
FrameRoots(f) == (IF f.l > 0 THEN {f.l} ELSE {}) \cup (IF f.k > 0 THEN {f.k} ELSE {})
                 \cup {f.o[i][2] : i \in {i \in 1..Len(f.o) : f.o[i][1] = "r"}}
Roots(t) == UNION {FrameRoots(t.fr[i]) : i \in 1..Len(t.fr)}
Live(t) == {a \in Closure(t.h, {}, Roots(t)) : a > Len(pre.h)}

\* how many objects an implementation may need for an object: itself and one
\* per slot for values that the machine holds in place
Weight(o) == CASE o.t = "L" -> 1 + Len(o.e) [] o.t = "M" -> 1 + 2 * Len(o.k) [] o.t = "S" -> 3 [] o.t = "N" -> 2
               [] o.t = "B" -> 2 [] OTHER -> 1
Bounds(t) ==
  LET a == Live(t)
      ops == FoldLeft(LAMBDA acc, f : acc + Len(f.o), 0, t.fr)
      Sum(F(_)) == FoldLeft(LAMBDA acc, i : acc + (IF i \in a THEN F(t.h[i]) ELSE 0), 0, Upto(Len(t.h)))
  IN <<Sum(LAMBDA o : IF o.t \in {"L", "M", "F", "C", "N", "S"} THEN 1 ELSE 0), Sum(Weight) + ops,
       Sum(LAMBDA o : IF o.t \in {"H", "D"} THEN 1 ELSE 0)>>

\* the active functions: calling line of every frame but the innermost
Look(t) == <<Len(t.out), Tail(Lines(t, cx)), TopFr(t).c>>
InLib(t) == \E i \in 1..Len(t.fr) : t.fr[i].c = 1

Fresh == [hist |-> <<>>, calls |-> <<>>, live |-> <<>>, n |-> 0, hi |-> 0, lib |-> FALSE]
\* the function a step enters, 0 if none
Callee(t, u) ==
  LET f == TopFr(t)
      v == IF f.c > 0 /\ Len(f.o) > 0 THEN f.o[Len(f.o)] ELSE VN
  IN IF Len(u.fr) > Len(t.fr) /\ cx.code[f.c][f.p][1] = "CALL" /\ v[1] = "r" /\ t.h[v[2]].t = "F" THEN v[2] ELSE 0
Bump(cs, a) ==
  LET at == {i \in 1..Len(cs) : cs[i][1] = a} IN
  IF at = {} THEN Append(cs, <<a, 1>>) ELSE LET i == CHOOSE i \in at : TRUE IN [cs EXCEPT ![i][2] = @ + 1]
Times(cs, a) == LET at == {i \in 1..Len(cs) : cs[i][1] = a} IN IF at = {} THEN 0 ELSE cs[CHOOSE i \in at : TRUE][2]
\* the functions made by the program, in order of creation: <<name, code, calls>>
Made == FoldLeft(LAMBDA acc, a : IF s.h[a].t = "F" /\ s.h[a].c > 1
                   THEN Append(acc, <<cx.code[s.h[a].c][s.h[a].p - 2][5], s.h[a].c, Times(ob.calls, a)>>) ELSE acc,
                 <<>>, Upto(Len(s.h)))
Watch(o, t, u) ==
  LET e1 == IF u.st = "run" /\ ~InLib(u)
            THEN LET k == Look(u) IN
                 IF o.hist # <<>> /\ o.hist[Len(o.hist)] = k THEN o.hist ELSE Append(o.hist, k)
            ELSE o.hist
  IN [hist |-> e1,
      calls |-> LET a == Callee(t, u) IN IF a = 0 THEN o.calls ELSE Bump(o.calls, a),
      live |-> IF scn.live /\ u.st = "run" /\ (o.n = 0 \/ Len(u.out) > Len(t.out)) THEN Append(o.live, Bounds(u)) ELSE o.live,
      hi |-> LET d == FoldLeft(LAMBDA acc, f : acc + Len(f.o), 0, u.fr) IN IF d > o.hi THEN d ELSE o.hi,
      lib |-> o.lib \/ InLib(u),
      n |-> o.n + 1]

OInit == Init /\ ob = Fresh
OLoad == Load /\ ob' = IF s'.st = "run" THEN [Fresh EXCEPT !.hist = <<<<0, <<>>, 2>>>>] ELSE Fresh
OGo ==
  /\ s.st = "run"
  /\ IF cx.left <= 0 THEN s' = [s EXCEPT !.st = "long"] /\ UNCHANGED <<cx, ob>>
     ELSE /\ s' = Step(s, cx)
          /\ cx' = [cx EXCEPT !.left = @ - 1]
          /\ ob' = Watch(ob, s, s')
  /\ UNCHANGED <<scn, fill, pre, chunk>>
OEmit ==
  /\ s.st \in {"done", "err", "unsup", "long"}
  /\ CSVWrite("%1$s", <<ToJson([Outcome EXCEPT !.id = scn.id] @@ [hist |-> ob.hist, live |-> ob.live, n |-> ob.n, hi |-> ob.hi, lib |-> ob.lib, made |-> Made])>>, OutFile)
  /\ s' = [Idle EXCEPT !.st = "end"]
  /\ UNCHANGED <<scn, fill, pre, chunk, cx, ob>>
ONext == (Fill /\ UNCHANGED ob) \/ OLoad \/ OGo \/ OEmit
OSpec == OInit /\ [][ONext]_ovars
OView == <<scn.id, fill, [s EXCEPT !.h = SubSeq(@, Len(pre.h) + 1, Len(@))], cx.left>>

(***************************************************************************)
(* Invariants of the machine itself                                         *)
(***************************************************************************)
Bounded == /\ Len(s.fr) <= MaxFrames
           /\ \A i \in 1..Len(s.fr) : Len(s.fr[i].o) <= MaxOperands
           /\ Len(s.ret) <= MaxRets
\* every reference leads to an object of this heap
InHeap == \A i \in (Len(pre.h) + 1)..Len(s.h) : AllRefs(s.h[i]) \subseteq 1..Len(s.h)
\* nothing a program can reach is ever taken away: addresses stay valid and
\* objects keep their kind
Stable == [][s.st = "run" /\ s'.st # "end" => /\ Len(s'.h) >= Len(s.h)
                             /\ \A i \in (Len(pre.h) + 1)..Len(s.h) : s'.h[i].t = s.h[i].t]_ovars
=============================================================================
