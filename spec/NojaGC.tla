------------------------------- MODULE NojaGC -------------------------------
(***************************************************************************)
(* The machine of NojaObs with a garbage collector: between any two         *)
(* instructions TLC may decide to collect, which moves the objects that are *)
(* reachable from the frames (and the library) to new addresses and forgets *)
(* all others.  At most scn.gcs collections happen in one behaviour.  The   *)
(* outcomes of all behaviours of a program must be the same, and the points *)
(* chosen (at) are replayed on the implementation.                          *)
(***************************************************************************)
EXTENDS NojaObs

VARIABLES at, k
gvars == <<scn, fill, pre, chunk, cx, s, ob, at, k>>

MoveV(f, v) == IF v[1] = "r" THEN <<"r", f[v[2]]>> ELSE v
MoveS(f, vs) == Tup([i \in 1..Len(vs) |-> MoveV(f, vs[i])])
MoveO(f, o) ==
  CASE o.t = "L" -> [o EXCEPT !.e = MoveS(f, @)]
    [] o.t = "M" -> [o EXCEPT !.k = MoveS(f, @), !.v = MoveS(f, @)]
    [] o.t = "F" -> [o EXCEPT !.u = f[@]]
    [] o.t = "C" -> [o EXCEPT !.m = f[@], !.up = IF @ = 0 THEN 0 ELSE f[@]]
    [] o.t = "B" -> [o EXCEPT !.p = f[@]]
    [] o.t = "N" -> [o EXCEPT !.x = MoveV(f, @)]
    [] o.t = "S" -> [o EXCEPT !.x = MoveV(f, @), !.y = MoveV(f, @)]
    [] OTHER -> o
\* the library keeps its addresses; live objects are packed behind it, the last
\* one first, so that every address really changes
Collect(t) ==
  LET keep == Live(t)
      n == Len(pre.h)
      order == FoldLeft(LAMBDA acc, a : IF a \in keep THEN <<a>> \o acc ELSE acc, <<>>, Upto(Len(t.h)))
      f == [a \in keep \cup 1..n |-> IF a <= n THEN a ELSE n + (CHOOSE i \in 1..Len(order) : order[i] = a)]
      Fr(x) == [x EXCEPT !.o = MoveS(f, @), !.l = IF @ = 0 THEN 0 ELSE f[@], !.k = IF @ = 0 THEN 0 ELSE f[@]]
  IN [t EXCEPT !.h = SubSeq(t.h, 1, n) \o Tup([i \in 1..Len(order) |-> MoveO(f, t.h[order[i]])]),
               !.fr = Tup([i \in 1..Len(@) |-> Fr(@[i])])]

GInit == OInit /\ at = <<>> /\ k = 0
GGo == OGo /\ k' = k + 1 /\ UNCHANGED at
GCollect ==
  /\ s.st = "run"
  /\ Len(at) < scn.gcs
  /\ IF at = <<>> THEN TRUE ELSE at[Len(at)] < k
  /\ s' = Collect(s)
  /\ at' = Append(at, k)
  /\ UNCHANGED <<scn, fill, pre, chunk, cx, ob, k>>
GEmit ==
  /\ s.st \in {"done", "err", "unsup", "long"}
  /\ CSVWrite("%1$s", <<ToJson(Outcome @@ [at |-> at])>>, OutFile)
  /\ s' = [Idle EXCEPT !.st = "end"]
  /\ UNCHANGED <<scn, fill, pre, chunk, cx, ob, at, k>>
GNext == (Fill /\ UNCHANGED <<ob, at, k>>) \/ (OLoad /\ UNCHANGED <<at, k>>) \/ GGo \/ GCollect \/ GEmit
GSpec == GInit /\ [][GNext]_gvars
GView == <<scn.id, fill, [s EXCEPT !.h = SubSeq(@, Len(pre.h) + 1, Len(@))], cx.left, at, k>>

\* a collection forgets exactly what cannot be reached
Packed == at # <<>> /\ at[Len(at)] = k /\ s.st = "run" => Live(s) = (Len(pre.h) + 1)..Len(s.h)
\* the library's objects refer to library objects only
LibClosed == s.st = "run" /\ k = 0 => Closure(s.h, {}, 1..Len(pre.h)) \subseteq 1..Len(pre.h)
=============================================================================
