------------------------------ MODULE NojaText ------------------------------
(***************************************************************************)
(* Text and UTF-8.  A Noja string is a TLA+ string in which every element  *)
(* stands for one code point.  The alphabet a run may use, with the code   *)
(* point of every element, comes from the scenario file (Chars); elements  *)
(* outside the BMP travel as private-use characters.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt
CONSTANT Chars          \* sequence of [c |-> 1-character string, u |-> code point]

Tab     == TLCEval(Chars)
CharSet == {Tab[i].c : i \in 1..Len(Tab)}
CodeOf  == [c \in CharSet |-> Tab[CHOOSE i \in 1..Len(Tab) : Tab[i].c = c].u]
UnivSet == {Tab[i].u : i \in 1..Len(Tab)}
CharOf  == [u \in UnivSet |-> Tab[CHOOSE i \in 1..Len(Tab) : Tab[i].u = u].c]

Blanks == {c \in CharSet : CodeOf[c] \in {9, 10, 11, 12, 13, 32}}      \* between tokens

NulCh  == {c \in CharSet : CodeOf[c] = 0}
Ch(s, i)  == SubSeq(s, i, i)
Known(s)  == \A i \in 1..Len(s) : Ch(s, i) \in CharSet

\* UTF-8 encoding of one code point
Utf8(u) ==
  IF u < 128 THEN <<u>>
  ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
  ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
  ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Utf8Len(u) == IF u < 128 THEN 1 ELSE IF u < 2048 THEN 2 ELSE IF u < 65536 THEN 3 ELSE 4

Upto(n) == [i \in 1..n |-> i]
Tup(f) == <<>> \o f       \* the same sequence, evaluated
\* concatenation of Part(1) .. Part(n) with a separator
Joined(Part(_), n, sep) ==
  IF n = 0 THEN "" ELSE FoldLeft(LAMBDA acc, i : acc \o sep \o Part(i), Part(1), Tup([i \in 1..(n - 1) |-> i + 1]))

Bytes(s) == FoldLeft(LAMBDA acc, i : acc \o Utf8(CodeOf[Ch(s, i)]), <<>>, Upto(Len(s)))
ByteLen(s) == FoldLeft(LAMBDA acc, i : acc + Utf8Len(CodeOf[Ch(s, i)]), 0, Upto(Len(s)))

\* Decoding: a sequence of code points, or <<-1>> when some part is not the
\* encoding of a code point: overlong forms, surrogates and values past
\* 10FFFF are none.
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
\* one code point of b starting at i: <<code point, next>>; code point -1 on failure
DecodeAt(b, i) ==
  LET x == b[i] IN
    IF x < 128 THEN <<x, i + 1>>
    ELSE IF x < 192 THEN <<-1, 0>>
    ELSE IF x < 224 THEN
      IF ~Cont(b, i + 1) THEN <<-1, 0>>
      ELSE LET u == (x - 192) * 64 + (b[i+1] - 128)
           IN IF u < 128 THEN <<-1, 0>> ELSE <<u, i + 2>>
    ELSE IF x < 240 THEN
      IF ~(Cont(b, i + 1) /\ Cont(b, i + 2)) THEN <<-1, 0>>
      ELSE LET u == (x - 224) * 4096 + (b[i+1] - 128) * 64 + (b[i+2] - 128)
           IN IF u < 2048 \/ (u >= 55296 /\ u < 57344) THEN <<-1, 0>> ELSE <<u, i + 3>>
    ELSE IF x < 248 THEN
      IF ~(Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)) THEN <<-1, 0>>
      ELSE LET u == (x - 240) * 262144 + (b[i+1] - 128) * 4096 + (b[i+2] - 128) * 64 + (b[i+3] - 128)
           IN IF u < 65536 \/ u > 1114111 THEN <<-1, 0>> ELSE <<u, i + 4>>
    ELSE <<-1, 0>>
Decode(b) ==
  FoldLeft(LAMBDA r, i : IF r.bad # 0 \/ i < r.at THEN r
                         ELSE LET d == DecodeAt(b, i) IN
                              IF d[1] < 0 THEN [r EXCEPT !.bad = d[1]] ELSE [r EXCEPT !.at = d[2], !.u = Append(@, d[1])],
           [u |-> <<>>, at |-> 1, bad |-> 0], Upto(Len(b)))
\* code points, or <<-1>>
DecodeAll(b) == LET r == Decode(b) IN IF r.bad # 0 THEN <<r.bad>> ELSE r.u

FromCodes(u) == Joined(LAMBDA i : CharOf[u[i]], Len(u), "")

\* the element index (1-based) whose encoding starts at byte offset off, 0 when
\* off falls inside an encoding or past the end
AtByte(s, off) ==
  LET r == FoldLeft(LAMBDA acc, i : IF acc[2] >= off THEN acc ELSE <<i + 1, acc[2] + Utf8Len(CodeOf[Ch(s, i)])>>,
                    <<1, 0>>, Upto(Len(s)))
  IN IF r[2] = off THEN r[1] ELSE 0

RECURSIVE TrimL(_, _)
TrimL(s, i) == IF i <= Len(s) /\ Ch(s, i) = " " THEN TrimL(s, i + 1) ELSE i
RECURSIVE TrimR(_, _)
TrimR(s, j) == IF j >= 1 /\ Ch(s, j) = " " THEN TrimR(s, j - 1) ELSE j
Trim(s) == LET i == TrimL(s, 1)
               j == TrimR(s, Len(s))
           IN IF i > j THEN "" ELSE SubSeq(s, i, j)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigVal == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
            [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
RECURSIVE Num_(_, _, _)
Num_(s, i, acc) == IF i > Len(s) THEN acc ELSE Num_(s, i + 1, acc * 10 + DigVal[Ch(s, i)])
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digits THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE SkipZeros(_, _)
SkipZeros(s, i) == IF i < Len(s) /\ Ch(s, i) = "0" THEN SkipZeros(s, i + 1) ELSE i

Hex == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
HexByte(b) == Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1]
HexList(b) == Joined(LAMBDA i : HexByte(b[i]), Len(b), ", ")
=============================================================================
