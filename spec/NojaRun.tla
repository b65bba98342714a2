------------------------------- MODULE NojaRun -------------------------------
(***************************************************************************)
(* Executes scenarios.  A scenario is a program text with holes; TLC chooses *)
(* how each hole is filled (so one scenario stands for every combination),  *)
(* runs the machine to completion and writes the observable outcome.        *)
(***************************************************************************)
EXTENDS NojaVM, Json, IOUtils, CSV

CONSTANTS InFile, OutFile
In == JsonDeserialize(InFile)
RunChars == In.chars

\* the library, evaluated once; its exports become object 1
PreludeOf(src) ==
  LET c == Compile(src)
      s0 == [Start(<<EmptyMap>>, 1, "") EXCEPT !.st = "run"]
      s == Run(s0, [code |-> <<c[2]>>, bad |-> <<<<>>>>], 10000)
      ex == s.h[s.ret[1][2]]
  IN [code |-> c[2], h |-> [s.h EXCEPT ![1] = ex]]

VARIABLES scn, fill, pre, chunk, cx, s
vars == <<scn, fill, pre, chunk, cx, s>>

Idle == [h |-> <<>>, fr |-> <<>>, out |-> <<>>, st |-> "load", cat |-> "", msg |-> "", inp |-> "", ret |-> <<>>, fs |-> NoFs]
Init ==
  LET d == TLCEval(In)
      p == TLCEval(PreludeOf(d.prelude))
  IN /\ pre = p
     /\ chunk = d.chunk
     /\ \E i \in 1..Len(d.scns) : scn = d.scns[i]
     /\ fill = <<>>
     /\ cx = [code |-> <<>>, bad |-> <<>>, left |-> 0]
     /\ s = Idle

Fill ==
  /\ s.st = "load"
  /\ Len(fill) < Len(scn.holes)
  /\ LET n == Len(fill) + 1 IN       \* a hole may repeat the choice made for an earlier one
     IF scn.same[n] > 0 THEN fill' = Append(fill, fill[scn.same[n]])
     ELSE \E j \in 1..Len(scn.holes[n]) : fill' = Append(fill, j)
  /\ UNCHANGED <<scn, pre, chunk, cx, s>>

Source == FoldLeft(LAMBDA acc, i : acc \o scn.holes[i][fill[i]] \o scn.parts[i + 1], scn.parts[1], Upto(Len(fill)))
\* the file system a scenario starts with: code 1 is the library, code 2 the program,
\* then the scripts in the order of the scenario
Outside(sc, pol) == IF pol = 0 THEN NoNet ELSE [NoNet EXCEPT !.on = sc.net.on, !.pol = pol, !.acts = sc.net.acts, !.pe = sc.net.pe]
Policies(sc) == IF sc.pol = 0 THEN {0} ELSE 1..sc.pol       \* ways to resolve open choices
Tree(sc, pol) ==
  IF ~sc.fs.on THEN [NoFs EXCEPT !.net = Outside(sc, pol)]
  ELSE [rnd |-> NoRnd, net |-> Outside(sc, pol), on |-> TRUE, cwd |-> sc.fs.cwd, v |-> 0, d |-> ToSet(sc.fs.dirs),
        f |-> Tup([i \in 1..Len(sc.fs.files) |->
                 LET x == sc.fs.files[i] IN
                 [p |-> x.p, b |-> x.b, k |-> IF x.c > 0 THEN "script" ELSE "data", w |-> 0, c |-> x.c]]),
        loc |-> Tup([c \in 1..(Len(sc.mods) + 2) |->
                 LET at == {i \in 1..Len(sc.fs.files) : sc.fs.files[i].c = c} IN
                 IF at = {} THEN <<>> ELSE sc.fs.files[CHOOSE i \in at : TRUE].p])]
Load ==
  /\ s.st = "load"
  /\ Len(fill) = Len(scn.holes)
  /\ LET r == IF scn.asm THEN Assemble(Source) ELSE Compile(Source)
         ms == scn.mods
         cs == Tup([i \in 1..Len(ms) |-> Compile(ms[i])])
     IN IF r[1] = "unsup" \/ \E i \in 1..Len(ms) : cs[i][1] = "unsup"
        THEN s' = [Idle EXCEPT !.st = "unsup"] /\ UNCHANGED cx
        ELSE IF r[1] = "err"
        THEN s' = [Idle EXCEPT !.st = "err", !.cat = r[2], !.msg = r[3], !.fs = Tree(scn, 0)] /\ UNCHANGED cx
        ELSE /\ cx' = [code |-> <<pre.code, r[2]>> \o [i \in 1..Len(ms) |-> IF cs[i][1] = "ok" THEN cs[i][2] ELSE <<>>],
                       bad |-> <<<<>>, <<>>>> \o [i \in 1..Len(ms) |-> IF cs[i][1] = "err" THEN <<cs[i][2], cs[i][3]>> ELSE <<>>],
                       left |-> scn.max]
             /\ \E pol \in Policies(scn) : s' = [Start(pre.h, 2, scn.inp) EXCEPT !.fs = Tree(scn, pol)]
  /\ UNCHANGED <<scn, fill, pre, chunk>>

Go ==
  /\ s.st = "run"
  /\ IF cx.left <= 0 THEN s' = [s EXCEPT !.st = "long"] /\ UNCHANGED cx
     ELSE s' = Run(s, cx, chunk) /\ cx' = [cx EXCEPT !.left = @ - chunk]
  /\ UNCHANGED <<scn, fill, pre, chunk>>

NetFine == NetOk(s.fs.net)

Outcome ==
  [id |-> scn.id, fill |-> fill, st |-> s.st, cat |-> s.cat, msg |-> s.msg, out |-> s.out,
   ret |-> s.ret, objs |-> LET a == Reach(s.h, {}, RetRoots(s)) IN {<<i, s.h[i], IF s.h[i].t \in {"N", "S"} THEN Text(s.h, VR(i)) ELSE "">> : i \in a},
   tr |-> IF s.st = "err" THEN Lines(s, cx) ELSE <<>>,
   tree |-> [i \in 1..Len(s.fs.f) |-> <<s.fs.f[i].p, s.fs.f[i].k, IF s.fs.f[i].k = "data" THEN s.fs.f[i].b ELSE <<>>>>],
   peers |-> PeerFates(s.fs.net), pol |-> s.fs.net.pol]
Emit ==
  /\ s.st \in {"done", "err", "unsup", "long"}
  /\ CSVWrite("%1$s", <<ToJson(Outcome)>>, OutFile)
  /\ s' = [Idle EXCEPT !.st = "end"]
  /\ UNCHANGED <<scn, fill, pre, chunk, cx>>

Next == Fill \/ Load \/ Go \/ Emit
Spec == Init /\ [][Next]_vars
View == <<scn.id, fill, [s EXCEPT !.h = SubSeq(@, Len(pre.h) + 1, Len(@))], cx.left>>
=============================================================================
