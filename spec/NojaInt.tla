------------------------------ MODULE NojaInt ------------------------------
(***************************************************************************)
(* 64-bit integers.  An integer value is <<"i", n>> when |n| <= 2^29 and     *)
(* <<"I", neg, mag>> otherwise, mag being its magnitude in base 10000, least  *)
(* significant limb first.  The representation of every integer is unique.  *)
(***************************************************************************)
EXTENDS NojaText

IntMax == 536870912
Abs(n) == IF n < 0 THEN -n ELSE n
Base == 10000
Max64 == <<5807, 5477, 368, 3372, 922>>       \* 2^63 - 1
Min64 == <<5808, 5477, 368, 3372, 922>>       \* 2^63

RECURSIVE TrimMag(_)
TrimMag(m) == IF Len(m) > 0 /\ m[Len(m)] = 0 THEN TrimMag(SubSeq(m, 1, Len(m) - 1)) ELSE m
MagOf(n) == TrimMag(<<n % Base, (n \div Base) % Base, n \div 100000000>>)
Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
RECURSIVE MagCmp_(_, _, _)
MagCmp_(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE MagCmp_(a, b, i - 1)
MagCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE MagCmp_(a, b, Len(a))
MaxOf(a, b) == IF a < b THEN b ELSE a

\* carry propagation over column sums (each below 2^30)
Carry(cols) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == cols[i] + acc.c IN [m |-> Append(acc.m, t % Base), c |-> t \div Base],
                    [m |-> <<>>, c |-> 0], Upto(Len(cols)))
  IN TrimMag(r.m \o <<r.c % Base, r.c \div Base>>)
MagAdd(a, b) == Carry(Tup([i \in 1..MaxOf(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)]))
MagSub(a, b) == Carry(Tup([i \in 1..Len(a) |-> Limb(a, i) - Limb(b, i)]))       \* a >= b; borrows are negative carries
Limb1(m, i) == IF i >= 1 /\ i <= Len(m) THEN m[i] ELSE 0
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > Len(a) THEN 0 ELSE a[i] * Limb1(b, k + 1 - i) + Col(a, b, k, i + 1)
MagMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
                ELSE Carry(Tup([k \in 1..(Len(a) + Len(b) - 1) |-> Col(a, b, k, 1)]))
\* largest d in lo..hi with b * d <= r
RECURSIVE Digit(_, _, _, _)
Digit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF MagCmp(MagMul(b, MagOf(mid)), r) <= 0 THEN Digit(r, b, mid, hi) ELSE Digit(r, b, lo, mid - 1)
\* <<quotient, remainder>>, b # 0
MagDivMod(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i :
             LET rem == TrimMag(<<a[Len(a) + 1 - i]>> \o acc.r)
                 d == IF MagCmp(rem, b) < 0 THEN 0 ELSE Digit(rem, b, 0, Base - 1)
             IN [q |-> <<d>> \o acc.q, r |-> MagSub(rem, MagMul(b, MagOf(d)))],
             [q |-> <<>>, r |-> <<>>], Upto(Len(a)))
  IN <<TrimMag(r.q), r.r>>

\* integer value of a sign and magnitude; <<"U">> when it does not fit 64 bits
FromMag(neg, m) ==
  IF Len(m) <= 2 \/ (Len(m) = 3 /\ MagCmp(m, MagOf(IntMax)) <= 0)
  THEN LET n == Limb(m, 1) + Base * Limb(m, 2) + 100000000 * Limb(m, 3) IN <<"i", IF neg THEN -n ELSE n>>
  ELSE IF MagCmp(m, IF neg THEN Min64 ELSE Max64) > 0 THEN <<"U">>
  ELSE <<"I", neg, m>>
IsInt(v) == v[1] = "i" \/ v[1] = "I"
NegInt(v) == IF v[1] = "i" THEN v[2] < 0 ELSE v[2]
MagInt(v) == IF v[1] = "i" THEN MagOf(Abs(v[2])) ELSE v[3]

IntCmp(v, w) ==
  IF v[1] = "i" /\ w[1] = "i" THEN (IF v[2] < w[2] THEN -1 ELSE IF v[2] > w[2] THEN 1 ELSE 0)
  ELSE LET a == NegInt(v)
           b == NegInt(w)
           c == MagCmp(MagInt(v), MagInt(w))
       IN IF a # b THEN (IF a THEN -1 ELSE 1) ELSE IF a THEN -c ELSE c
IntNeg(v) == FromMag(~NegInt(v), MagInt(v))
IntAddS(a, am, b, bm) ==
  IF a = b THEN FromMag(a, MagAdd(am, bm))
  ELSE IF MagCmp(am, bm) >= 0 THEN FromMag(a, MagSub(am, bm)) ELSE FromMag(b, MagSub(bm, am))
TruncDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q

\* exact results; <<"U">> when the result does not fit (no claim is made)
IntArith(op, v, w) ==
  LET small == v[1] = "i" /\ w[1] = "i"
      a == v[2]
      b == w[2]
      m == MagInt(v)
      n == MagInt(w)
      p == NegInt(v)
      q == NegInt(w)
      zero == w = <<"i", 0>> IN
  CASE op = "ADD" -> IF small /\ Abs(a + b) <= IntMax THEN <<"i", a + b>> ELSE IntAddS(p, m, q, n)
    [] op = "SUB" -> IF small /\ Abs(a - b) <= IntMax THEN <<"i", a - b>> ELSE IntAddS(p, m, ~q, n)
    [] op = "MUL" -> IF small /\ (a = 0 \/ b = 0) THEN <<"i", 0>>
                     ELSE IF small /\ Abs(a) <= IntMax \div Abs(b) THEN <<"i", a * b>>
                     ELSE FromMag(p # q, MagMul(m, n))
    [] op = "DIV" -> IF zero THEN <<"E", "Division by zero">>
                     ELSE IF small THEN <<"i", TruncDiv(a, b)>>
                     ELSE FromMag(p # q, MagDivMod(m, n)[1])
    [] op = "MOD" -> IF zero THEN <<"E", "Division by zero">>
                     ELSE IF small THEN <<"i", a - b * TruncDiv(a, b)>>
                     ELSE FromMag(p, MagDivMod(m, n)[2])

Pad4(n) == (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE "") \o ToString(n)
IntText(v) ==
  IF v[1] = "i" THEN ToString(v[2])
  ELSE (IF v[2] THEN "-" ELSE "") \o ToString(v[3][Len(v[3])])
       \o Joined(LAMBDA i : Pad4(v[3][Len(v[3]) - i]), Len(v[3]) - 1, "")

\* value of a run of decimal digits
MagDigits(t) ==
  LET z == SkipZeros(t, 1)
      u == SubSeq(t, z, Len(t))
      k == (Len(u) + 3) \div 4
  IN TrimMag(Tup([i \in 1..k |-> Num_(SubSeq(u, MaxOf(1, Len(u) - 4 * i + 1), Len(u) - 4 * (i - 1)), 1, 0)]))
=============================================================================
