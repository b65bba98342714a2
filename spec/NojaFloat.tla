----------------------------- MODULE NojaFloat -----------------------------
(***************************************************************************)
(* Floating point numbers: IEEE 754 doubles, rounding to nearest, ties to   *)
(* even.  A value is                                                       *)
(*   <<"f", n, z>>         n/64 when |n| <= 2^24; z: it is a negative zero   *)
(*   <<"F", neg, mag, e>>  +-mag * 2^e for any other, mag odd                *)
(* so the representation of every double is unique.  No claim (<<"U">>) is   *)
(* made about results outside 2^-400 .. 2^400.                              *)
(***************************************************************************)
EXTENDS NojaInt

FltMax == 16777216
FltLim == 400
MaxP2 == 560

VF(n, z) == <<"f", n, z>>
IsFlt(v) == v[1] = "f" \/ v[1] = "F"

\* powers of two: 2^k is P2Tab[k + 1]
P2Tab == TLCEval(FoldLeft(LAMBDA acc, i : Append(acc, Carry(Tup([j \in 1..Len(acc[i]) |-> 2 * acc[i][j]]))), <<<<1>>>>, Upto(MaxP2)))
P2(k) == P2Tab[k + 1]
\* the quotient and the remainder by a number d <= 2^15
DivSmall(m, d) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == acc.r * Base + m[Len(m) + 1 - i] IN [q |-> <<t \div d>> \o acc.q, r |-> t % d],
                    [q |-> <<>>, r |-> 0], Upto(Len(m)))
  IN <<TrimMag(r.q), r.r>>
\* the number of bits of m # 0
RECURSIVE BitLen_(_, _, _)
BitLen_(m, lo, hi) ==       \* 2^lo <= m < 2^hi
  IF hi = lo + 1 THEN hi
  ELSE LET mid == (lo + hi) \div 2 IN IF MagCmp(P2(mid), m) <= 0 THEN BitLen_(m, mid, hi) ELSE BitLen_(m, lo, mid)
BitLen(m) == IF m = <<>> THEN 0 ELSE BitLen_(m, 0, MaxP2)

\* the double mag * 2^e, which is representable
RECURSIVE Odd_(_, _)
Odd_(m, e) ==
  IF m[1] % 2 = 1 THEN <<m, e>>
  ELSE LET k == IF m[1] % 16 = 0 THEN 4 ELSE IF m[1] % 8 = 0 THEN 3 ELSE IF m[1] % 4 = 0 THEN 2 ELSE 1
       IN Odd_(DivSmall(m, 2 ^ k)[1], e + k)
Dyadic(neg, m0, e0) ==
  IF m0 = <<>> THEN VF(0, neg)
  ELSE LET d == Odd_(m0, e0)
           m == d[1]
           e == d[2]
           b == BitLen(m) IN
  IF e >= -6 /\ (b + e + 6 <= 24 \/ (m = <<1>> /\ e = 18))
  THEN LET n == (Limb(m, 1) + Base * Limb(m, 2)) * 2 ^ (e + 6) IN VF(IF neg THEN -n ELSE n, FALSE)
  ELSE IF e + b > FltLim \/ e + b < -FltLim THEN <<"U">>
  ELSE <<"F", neg, m, e>>

\* the double closest to N/D * 2^e, for N and D other than 0
RoundQ(neg, N, D, e) ==
  LET k == 56 - (BitLen(N) - BitLen(D))
      qr == MagDivMod(IF k > 0 THEN MagMul(N, P2(k)) ELSE N, IF k < 0 THEN MagMul(D, P2(-k)) ELSE D)
      s == BitLen(qr[1]) - 53             \* 3 or 4 bits too many
      h == DivSmall(qr[1], 2 ^ s)
      half == 2 ^ (s - 1)
      up == h[2] > half \/ (h[2] = half /\ (qr[2] # <<>> \/ h[1][1] % 2 = 1))
  IN Dyadic(neg, IF up THEN MagAdd(h[1], <<1>>) ELSE h[1], e - k + s)
RoundM(neg, m, e) == IF m = <<>> \/ BitLen(m) <= 53 THEN Dyadic(neg, m, e) ELSE RoundQ(neg, m, <<1>>, e)

\* sign, magnitude and exponent of a float
FNeg(f) == IF f[1] = "f" THEN f[2] < 0 \/ f[3] ELSE f[2]
FMag(f) == IF f[1] = "f" THEN MagOf(Abs(f[2])) ELSE f[3]
FExp(f) == IF f[1] = "f" THEN -6 ELSE f[4]
FZero(f) == f[1] = "f" /\ f[2] = 0

IntToF(v) == IF v[1] = "i" /\ Abs(v[2]) <= 262144 THEN VF(v[2] * 64, FALSE) ELSE RoundM(NegInt(v), MagInt(v), 0)
ToF(v) == IF IsFlt(v) THEN v ELSE IntToF(v)

\* the value of the digits  a.b
FromDecimal(a, b) ==
  LET m == MagDigits(a \o b) IN
  IF m = <<>> THEN VF(0, FALSE) ELSE RoundQ(FALSE, m, TrimMag(Tup([i \in 1..(Len(b) \div 4) |-> 0]) \o <<10 ^ (Len(b) % 4)>>), 0)

\* magnitudes of two floats over the same power of two: <<a, b, exponent>>
Aligned(x, y) ==
  LET e == IF FExp(x) < FExp(y) THEN FExp(x) ELSE FExp(y)
      Up(f) == IF FExp(f) = e THEN FMag(f) ELSE MagMul(FMag(f), P2(FExp(f) - e))
  IN <<Up(x), Up(y), e>>
Far(x, y) == Abs(FExp(x) - FExp(y)) > FltLim

FAdd(x, y, yneg) ==
  IF FZero(x) /\ FZero(y) THEN VF(0, FNeg(x) /\ yneg)
  ELSE IF Far(x, y) THEN <<"U">>
  ELSE LET d == Aligned(x, y)
           c == MagCmp(d[1], d[2]) IN
       IF FNeg(x) = yneg THEN RoundM(yneg, MagAdd(d[1], d[2]), d[3])
       ELSE IF c = 0 THEN VF(0, FALSE)
       ELSE IF c > 0 THEN RoundM(FNeg(x), MagSub(d[1], d[2]), d[3]) ELSE RoundM(yneg, MagSub(d[2], d[1]), d[3])
FCmp(x, y) ==
  IF x[1] = "f" /\ y[1] = "f" THEN (IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0)
  ELSE IF FZero(x) THEN (IF FNeg(y) THEN 1 ELSE -1)
  ELSE IF FZero(y) \/ FNeg(x) # FNeg(y) THEN (IF FNeg(x) THEN -1 ELSE 1)
  ELSE LET a == BitLen(FMag(x)) + FExp(x)
           b == BitLen(FMag(y)) + FExp(y)
           c == IF a # b THEN (IF a < b THEN -1 ELSE 1) ELSE LET d == Aligned(x, y) IN MagCmp(d[1], d[2])
       IN IF FNeg(x) THEN -c ELSE c

ArithF(op, x, y) ==
  LET a == x[2]
      b == y[2]
      small == x[1] = "f" /\ y[1] = "f"
      neg == FNeg(x) # FNeg(y) IN
  CASE op = "ADD" -> IF small /\ Abs(a + b) <= FltMax THEN VF(a + b, x[3] /\ y[3]) ELSE FAdd(x, y, FNeg(y))
    [] op = "SUB" -> IF small /\ Abs(a - b) <= FltMax THEN VF(a - b, x[3] /\ b = 0 /\ ~y[3]) ELSE FAdd(x, y, ~FNeg(y))
    [] op = "MUL" -> IF FZero(x) \/ FZero(y) THEN VF(0, neg) ELSE RoundM(neg, MagMul(FMag(x), FMag(y)), FExp(x) + FExp(y))
    [] op = "DIV" -> IF FZero(y) THEN <<"E", "Division by zero">>
                     ELSE IF FZero(x) THEN VF(0, neg) ELSE RoundQ(neg, FMag(x), FMag(y), FExp(x) - FExp(y))
FltNeg(v) == IF v[1] = "f" THEN VF(-v[2], v[2] = 0 /\ ~v[3]) ELSE <<"F", ~v[2], v[3], v[4]>>

\* the integer just below (or at) a float; just above it.  <<"E">>: it does
\* not fit an integer
RoundDown(f, up) ==
  IF f[1] = "f" THEN LET n == f[2] IN <<"i", IF up THEN -((-n) \div 64) ELSE n \div 64>>
  ELSE IF f[4] >= 0 THEN
         (IF f[4] > 70 THEN <<"E">>
          ELSE LET r == FromMag(f[2], MagMul(f[3], P2(f[4]))) IN IF r[1] = "U" THEN <<"E">> ELSE r)
  ELSE LET q == MagDivMod(f[3], P2(-f[4]))[1] IN
       FromMag(f[2], IF f[2] = up THEN q ELSE MagAdd(q, <<1>>))

\* square root of a positive float: the largest r with r * r <= m
RECURSIVE Root_(_, _, _)
Root_(m, r, k) ==
  IF k < 0 THEN r
  ELSE LET t == MagAdd(r, P2(k)) IN Root_(m, IF MagCmp(MagMul(t, t), m) <= 0 THEN t ELSE r, k - 1)
FSqrt(f) ==
  LET n == BitLen(FMag(f))
      k == 112 - n + ((112 - n + FExp(f)) % 2)       \* makes the exponent even
      m == IF k >= 0 THEN MagMul(FMag(f), P2(k)) ELSE MagDivMod(FMag(f), P2(-k))[1]
      r == Root_(m, <<>>, 56)
      e == (FExp(f) - k) \div 2
  IN IF k < 0 THEN <<"U">>
     ELSE IF MagMul(r, r) = m THEN RoundM(FALSE, r, e)
     ELSE RoundM(FALSE, MagAdd(MagMul(r, <<8>>), <<1>>), e - 3)

\* f to the power of k when that is a double: an odd number times a power of two
FPow(f, k) ==
  LET d == Odd_(FMag(f), FExp(f))
      neg == FNeg(f) /\ k % 2 = 1 IN
  IF d[1] # <<1>> /\ (k < 0 \/ (BitLen(d[1]) - 1) * k > 53) THEN <<"U">>
  ELSE LET m == IF d[1] = <<1>> THEN d[1] ELSE FoldLeft(LAMBDA z, i : MagMul(z, d[1]), <<1>>, Upto(k))
       IN IF BitLen(m) > 53 THEN <<"U">> ELSE Dyadic(neg, m, d[2] * k)
\* the decimal logarithm of a whole power of ten; -1 for other numbers
FLog10(f) ==
  LET q == IF FNeg(f) \/ FZero(f) \/ FExp(f) > 90 \/ FExp(f) < -400 THEN <<<<2>>, <<>>>>
           ELSE IF FExp(f) >= 0 THEN <<MagMul(FMag(f), P2(FExp(f))), <<>>>> ELSE MagDivMod(FMag(f), P2(-FExp(f)))
      m == q[1]
      n == Len(m)
  IN IF n = 0 \/ q[2] # <<>> \/ (\E i \in 1..(n - 1) : m[i] # 0) \/ n > 6 THEN -1
     ELSE CASE m[n] = 1 -> 4 * n - 4 [] m[n] = 10 -> 4 * n - 3 [] m[n] = 100 -> 4 * n - 2 [] m[n] = 1000 -> 4 * n - 1 [] OTHER -> -1

MagText(m) == IF m = <<>> THEN "0" ELSE ToString(m[Len(m)]) \o Joined(LAMBDA i : Pad4(m[Len(m) - i]), Len(m) - 1, "")
\* two decimals, ties to even
FltText(v) ==
  IF v[1] = "f" THEN
    LET a == Abs(v[2]) * 25
        q == a \div 16
        r == a % 16
        c == IF r > 8 \/ (r = 8 /\ q % 2 = 1) THEN q + 1 ELSE q
    IN (IF v[2] < 0 \/ v[3] THEN "-" ELSE "") \o ToString(c \div 100) \o "." \o
       (IF c % 100 < 10 THEN "0" ELSE "") \o ToString(c % 100)
  ELSE LET qr == IF v[4] >= 0 THEN <<MagMul(MagMul(v[3], P2(v[4])), <<100>>), <<>>>> ELSE MagDivMod(MagMul(v[3], <<100>>), P2(-v[4]))
           c == IF v[4] >= 0 THEN -1 ELSE MagCmp(MagMul(qr[2], <<2>>), P2(-v[4]))
           q == IF c > 0 \/ (c = 0 /\ Limb(qr[1], 1) % 2 = 1) THEN MagAdd(qr[1], <<1>>) ELSE qr[1]
           h == DivSmall(q, 100)
       IN (IF v[2] THEN "-" ELSE "") \o MagText(h[1]) \o "." \o (IF h[2] < 10 THEN "0" ELSE "") \o ToString(h[2])

\* as text: rounded to two decimals, a second decimal that is zero left out.
\* "" when the value is (nearly) halfway between two such texts or huge
FltShort(v) ==
  LET cut(s) == IF Ch(s, Len(s)) = "0" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
      neg == IF v[1] = "f" THEN v[2] < 0 ELSE v[2]
      txt == FltText(v)
      abs == IF Ch(txt, 1) = "-" THEN SubSeq(txt, 2, Len(txt)) ELSE txt
      tie == IF v[1] = "f" THEN (Abs(v[2]) * 25) % 16 = 8
             ELSE IF v[4] >= 0 THEN BitLen(v[3]) + v[4] > 62
             ELSE LET qr == MagDivMod(MagMul(v[3], <<100>>), P2(-v[4]))
                      a == MagMul(qr[2], <<2>>)
                      b == P2(-v[4])
                      d == IF MagCmp(a, b) > 0 THEN MagSub(a, b) ELSE MagSub(b, a)
                  IN MagCmp(MagMul(d, P2(40)), b) < 0 \/ BitLen(v[3]) + v[4] > 62
  IN IF tie THEN "" ELSE (IF neg THEN "-" ELSE "") \o cut(abs)
=============================================================================
