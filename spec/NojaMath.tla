------------------------------ MODULE NojaMath ------------------------------
(***************************************************************************)
(* Judges recorded results of the math functions that have no exact value.  *)
(* A record has the function's name f, its arguments x and y and its result *)
(* r as decimal fractions of 32 places, whether the result was not a number *)
(* (nan), and for pow a certificate h: the natural logarithm of x, which is *)
(* checked here.  The functions are defined by their power series.          *)
(***************************************************************************)
EXTENDS NojaFloat, Json, IOUtils, CSV

CONSTANTS InFile, OutFile
In == JsonDeserialize(InFile)
NoChars == <<>>

VARIABLES rec, st, res
vars == <<rec, st, res>>

\* numbers: [n |-> negative, m |-> magnitude in units of 10^-32]
Places == 8
Zero == [n |-> FALSE, m |-> <<>>]
One == [n |-> FALSE, m |-> <<0, 0, 0, 0, 0, 0, 0, 0, 1>>]
Pi == [n |-> FALSE, m |-> <<7950, 3832, 2643, 3846, 7932, 3589, 9265, 1415, 3>>]
Ln10 == [n |-> FALSE, m |-> <<8436, 4546, 7991, 8401, 456, 2994, 8509, 3025, 2>>]
Neg(a) == [a EXCEPT !.n = ~@]
Mag(a) == [a EXCEPT !.n = FALSE]
Plus(a, b) ==
  IF a.n = b.n THEN [a EXCEPT !.m = TrimMag(MagAdd(@, b.m))]
  ELSE IF MagCmp(a.m, b.m) >= 0 THEN [a EXCEPT !.m = TrimMag(MagSub(@, b.m))]
  ELSE [b EXCEPT !.m = TrimMag(MagSub(@, a.m))]
Minus(a, b) == Plus(a, Neg(b))
Times(a, b) ==
  LET p == IF a.m = <<>> \/ b.m = <<>> THEN <<>> ELSE TrimMag(MagMul(a.m, b.m)) IN
  [n |-> a.n # b.n, m |-> SubSeq(p, Places + 1, Len(p))]
Over(a, k) == [a EXCEPT !.m = DivSmall(@, k)[1]]           \* k <= 2^15
IsNeg(a) == a.n /\ a.m # <<>>
AtMost(a, b) ==
  IF IsNeg(a) # IsNeg(b) THEN IsNeg(a)
  ELSE IF IsNeg(a) THEN MagCmp(a.m, b.m) >= 0 ELSE MagCmp(a.m, b.m) <= 0
Larger(a, b) == IF AtMost(a, b) THEN b ELSE a

\* the sum of a power series: term k follows from term k-1 by Step
Series(first, n, Step(_, _)) ==
  FoldLeft(LAMBDA acc, k : IF acc.t.m = <<>> THEN acc
                           ELSE LET t == Step(acc.t, k) IN [t |-> t, s |-> Plus(acc.s, t)],
           [t |-> first, s |-> first], Upto(n)).s
Sin(x) == LET q == Times(x, x) IN Series(x, 50, LAMBDA t, k : Over(Neg(Times(t, q)), 2 * k * (2 * k + 1)))
Cos(x) == LET q == Times(x, x) IN Series(One, 50, LAMBDA t, k : Over(Neg(Times(t, q)), (2 * k - 1) * 2 * k))
Exp(x) ==
  LET y == Over(x, 256)
      e == Series(One, 40, LAMBDA t, k : Over(Times(t, y), k))
  IN FoldLeft(LAMBDA z, i : Times(z, z), e, Upto(8))

\* |a| <= 3 * 10^-15 * |s|
Near(a, s) == MagCmp(TrimMag(MagMul(a.m, <<0, 0, 0, 1000>>)), TrimMag(MagMul(s.m, <<3>>))) <= 0
Null(a) == a.m = <<>>
Close(a, s) == Null(a) \/ Near(a, s)
\* r is e to the power of x, up to the scale s
IsExp(r, x, s) == IF IsNeg(x) THEN Close(Minus(Times(r, Exp(Neg(x))), One), s)
                  ELSE LET e == Exp(x) IN Close(Minus(r, e), Times(e, s))
Unit(a) == Larger(One, Mag(a))
HalfPi == Over(Pi, 2)
Slack == [n |-> FALSE, m |-> <<0, 0, 0, 0, 10>>]           \* 10^-15
Upto_(r, b) == AtMost(Mag(r), Plus(b, Slack))
Certified(x, h) == LET d == IF IsNeg(h) THEN Minus(Times(x, Exp(Neg(h))), One) ELSE Minus(Exp(h), x)
                   IN Null(d) \/ MagCmp(TrimMag(MagMul(d.m, <<0, 0, 0, 0, 0, 1>>)), Unit(x).m) <= 0

Defined(f, x) ==
  CASE f \in {"sqrt"} -> ~IsNeg(x)
    [] f \in {"log", "log10", "pow"} -> ~IsNeg(x)         \* whole powers of negative numbers are in NojaVM
    [] f \in {"asin", "acos"} -> AtMost(Mag(x), One)
    [] OTHER -> TRUE

Right(f, x, y, r, h) ==
  CASE f = "sin" -> Close(Minus(r, Sin(x)), One)
    [] f = "cos" -> Close(Minus(r, Cos(x)), One)
    [] f = "tan" -> Close(Minus(Times(r, Cos(x)), Sin(x)), Unit(r))
    [] f = "asin" -> Close(Minus(Sin(r), x), One) /\ Upto_(r, HalfPi)
    [] f = "acos" -> Close(Minus(Cos(r), x), One) /\ ~IsNeg(r) /\ Upto_(r, Pi)
    [] f = "atan" -> Close(Minus(Sin(r), Times(x, Cos(r))), Unit(x)) /\ Upto_(r, HalfPi)
    [] f = "atan2" ->                       \* the angle of the point (y, x)
         LET s == Sin(r)
             c == Cos(r)
             u == Larger(Unit(x), Unit(y)) IN
         /\ Close(Minus(Times(s, y), Times(c, x)), u)
         /\ ~IsNeg(Plus(Times(c, y), Times(s, x)))
         /\ Upto_(r, Pi) /\ (Null(x) \/ IsNeg(r) = IsNeg(x))
    [] f = "exp" -> IsExp(r, x, One)
    [] f = "log" -> IsExp(x, r, Unit(r))
    [] f = "log10" -> LET v == Times(r, Ln10) IN IsExp(x, v, Unit(v))
    [] f = "sqrt" -> Close(Minus(Times(r, r), x), Unit(x)) /\ ~IsNeg(r)
    [] f = "pow" -> Certified(x, h) /\ LET v == Times(y, h) IN IsExp(r, v, Unit(v))

Init == /\ LET doc == TLCEval(In) IN \E i \in 1..Len(doc) : rec = doc[i]
        /\ st = "read" /\ res = TRUE
Judge ==
  /\ st = "read" /\ st' = "judged"
  /\ res' = (IF ~Defined(rec.f, rec.x) THEN rec.nan
             ELSE ~rec.nan /\ Right(rec.f, rec.x, rec.y, rec.r, rec.h))
  /\ UNCHANGED rec
Write ==
  /\ st = "judged" /\ st' = "end"
  /\ CSVWrite("%1$s", <<ToJson([id |-> rec.id, ok |-> res])>>, OutFile)
  /\ UNCHANGED <<rec, res>>
Spec == Init /\ [][Judge \/ Write]_vars
=============================================================================
