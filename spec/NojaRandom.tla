----------------------------- MODULE NojaRandom -----------------------------
(***************************************************************************)
(* Judges recorded sequences of random numbers.  A record has the ends lo   *)
(* and hi of the range, the numbers drawn after a seed, those drawn after   *)
(* the same seed again, and those after another seed.                      *)
(***************************************************************************)
EXTENDS NojaInt, Json, IOUtils, CSV

CONSTANTS InFile, OutFile
In == JsonDeserialize(InFile)
NoChars == <<>>

VARIABLES rec, st, res
vars == <<rec, st, res>>

Inside(r, d) == IntCmp(r.lo, d) <= 0 /\ IntCmp(d, r.hi) <= 0
InRange(r) == \A i \in 1..Len(r.d) : Inside(r, r.d[i])
Again(r) == r.again = r.d
\* distances are magnitudes: they may exceed 64 bits
Dist(a, b) ==       \* b - a, a <= b
  LET m == MagInt(a)
      n == MagInt(b) IN
  IF NegInt(a) THEN (IF NegInt(b) THEN MagSub(m, n) ELSE MagAdd(m, n)) ELSE MagSub(n, m)
Size(r) == TrimMag(Dist(r.lo, r.hi))
Parts(r) == IF Len(Size(r)) = 1 /\ Size(r)[1] <= 8 THEN Size(r)[1] ELSE 8
\* the part of the range a number falls in, 0..k (k: the very end)
PartOf(r, d) ==
  LET k == Parts(r)
      off == MagMul(TrimMag(Dist(r.lo, d)), MagOf(k))
  IN CHOOSE b \in 0..k : MagCmp(TrimMag(off), TrimMag(MagMul(Size(r), MagOf(b)))) >= 0
                         /\ (b = k \/ MagCmp(TrimMag(off), TrimMag(MagMul(Size(r), MagOf(b + 1)))) < 0)
\* every part of the range comes up about equally often
Even(r) ==
  Size(r) = <<>> \/
  LET k == Parts(r)
      n == Len(r.d)
      c == FoldLeft(LAMBDA acc, i : LET b == PartOf(r, r.d[i]) + 1 IN [acc EXCEPT ![b] = @ + 1], Tup([b \in 1..(k + 1) |-> 0]), Upto(n))
  IN \A b \in 1..k : c[b] * 3 * k >= n /\ c[b] * k <= 3 * n
\* no class of numbers is left out: the last digits of the distances from the
\* start of the range come up about equally often too (in ranges wide enough for
\* that, and no wider than the source of randomness can tell apart)
LastDigits(r) ==
  LET n == Len(r.d)
      z == Size(r)
  IN (MagCmp(z, <<100>>) < 0 \/ MagCmp(z, <<3647, 4748, 21>>) > 0) \/
     \A k \in {2, 5} :
        LET c == FoldLeft(LAMBDA acc, i : LET g == TrimMag(Dist(r.lo, r.d[i]))
                                             h == IF g = <<>> THEN 0 ELSE g[1]
                                             b == (h % k) + 1 IN [acc EXCEPT ![b] = @ + 1], Tup([b \in 1..k |-> 0]), Upto(n))
        IN \A b \in 1..k : c[b] * 3 * k >= n /\ c[b] * k <= 3 * n
\* other seeds give other numbers
Differs(r) == Size(r) = <<>> \/ (Len(Size(r)) = 1 /\ Size(r)[1] = 1) \/ r.other # r.d

Init == /\ LET doc == TLCEval(In) IN \E i \in 1..Len(doc) : rec = doc[i]
        /\ st = "read" /\ res = [range |-> TRUE, again |-> TRUE, even |-> TRUE, differs |-> TRUE]
Judge ==
  /\ st = "read" /\ st' = "judged"
  /\ LET ok == InRange(rec) IN
     res' = [range |-> ok, again |-> Again(rec), even |-> ok => (Even(rec) /\ LastDigits(rec)), differs |-> Differs(rec)]
  /\ UNCHANGED rec
Write ==
  /\ st = "judged" /\ st' = "end"
  /\ CSVWrite("%1$s", <<ToJson([id |-> rec.id] @@ res)>>, OutFile)
  /\ UNCHANGED <<rec, res>>
Spec == Init /\ [][Judge \/ Write]_vars
=============================================================================
