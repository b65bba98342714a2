------------------------------- MODULE NojaVM -------------------------------
(***************************************************************************)
(* The Noja machine: values, objects, frames and one transition per        *)
(* instruction (Step).  Garbage collection is not visible at this level:   *)
(* the machine has an unbounded heap, so any implementation that reclaims  *)
(* memory must be indistinguishable from this one.                         *)
(*                                                                         *)
(* Values   <<"n">> <<"b",B>> <<"i",n>> <<"f",n64,negzero>> <<"s",str>>     *)
(*          <<"F",neg,mag,e>> (other floats)                               *)
(*          <<"T",name>> <<"x",native>> <<"m",module>> <<"any">> <<"r",a>>   *)
(* Objects  [t,e] lists  [t,k,v] maps  [t,c,p,n,u] functions               *)
(*          [t,up,m] scopes  [t,p,o,n] buffers  [t,b] buffer payloads      *)
(*          [t,x] nullable types  [t,x,y] sum types                        *)
(*          [t,p,m,o,q] open files  [t,q,v] open directories               *)
(* Frames   [c,p,o,l,k,w]: code, next instruction, operands, locals map,   *)
(*          enclosing scope, number of results wanted.  c = 0: a native    *)
(*          function is active.                                            *)
(***************************************************************************)
EXTENDS NojaNet

(***************************************************************************)
(* A run context cx is [code |-> sequence of instruction sequences,         *)
(* bad |-> for each, <<>> or <<category, message>> when its source has no    *)
(* code].                                                                    *)
(***************************************************************************)
MaxFrames == 16
MaxOperands == 16
MaxRets == 8

VN == <<"n">>
VB(b) == <<"b", b>>
VI(n) == <<"i", n>>
VS(x) == <<"s", x>>
VR(a) == <<"r", a>>
VT(x) == <<"T", x>>

TypeNames == {"Type", "None", "int", "bool", "float", "String", "Buffer", "List", "Map", "File",
              "Directory", "NullableType", "SumType"}
StaticMaps == {"net", "math", "files", "buffer", "string", "random"}
\* native functions and how many arguments they take (-1: any number)
NativeArgc(x) ==
  CASE x \in {"print", "assert", "string.cat"} -> -1
    [] x \in {"istypeof", "math.pow", "math.atan2"} -> 2
    [] x \in {"input", "getCurrentWorkingDirectory", "getCurrentScriptDirectory", "getCurrentScriptLocation"} -> 0
    [] x \in {"files.openFile", "random.generate", "net.listen"} -> 2
    [] x \in {"string.slice", "buffer.sliceUp", "files.read", "files.write", "net.recv", "net.send"} -> 3
    [] x \in {"net.socket", "net.bind"} -> 4
    [] OTHER -> 1
BasicNatives == {"import", "type", "print", "input", "count", "error", "assert", "istypeof", "typename",
                 "keysof", "getCurrentWorkingDirectory", "getCurrentScriptDirectory", "getCurrentScriptLocation"}
Members == [x \in StaticMaps |->
  CASE x = "math" -> {"floor", "ceil", "cos", "sin", "tan", "acos", "asin", "atan", "atan2", "exp", "log",
                      "log10", "pow", "sqrt"}
    [] x = "string" -> {"ord", "chr", "cat", "trim", "slice", "toInt"}
    [] x = "buffer" -> {"new", "sliceUp", "toString", "fromString"}
    [] x = "files" -> {"openFile", "openDir", "nextDirItem", "read", "write"}
    [] x = "random" -> {"seed", "generate"}
    [] x = "net" -> {"socket", "bind", "listen", "accept", "recv", "send", "close"}
    [] OTHER -> {}]
Constants == [x \in StaticMaps |->
  CASE x = "files" -> <<<<"READ", VI(0)>>, <<"WRITE", VI(1)>>, <<"APPEND", VI(2)>>>>
    [] x = "net" -> <<<<"AF_INET", VI(2)>>, <<"SOCK_STREAM", VI(1)>>, <<"SOCK_DGRAM", VI(2)>>>>
    [] x = "math" -> <<<<"PI", FromDecimal("3", "14159265358979323846")>>, <<"E", FromDecimal("2", "7182818284590452354")>>>>
    [] OTHER -> <<>>]
(***************************************************************************)
(* Object inspection                                                       *)
(***************************************************************************)
TypeOf(h, v) ==
  CASE v[1] = "n" -> "None" [] v[1] = "b" -> "bool" [] v[1] \in {"i", "I"} -> "int" [] v[1] \in {"f", "F"} -> "float"
    [] v[1] = "s" -> "String" [] v[1] = "T" -> "Type" [] v[1] = "x" -> "native function"
    [] v[1] = "m" -> "static map" [] v[1] = "any" -> "AnyType"
    [] v[1] = "r" -> (CASE h[v[2]].t = "L" -> "List" [] h[v[2]].t = "M" -> "Map" [] h[v[2]].t = "F" -> "function"
                        [] h[v[2]].t = "B" -> "Buffer" [] h[v[2]].t = "N" -> "NullableType"
                        [] h[v[2]].t = "S" -> "SumType" [] h[v[2]].t = "H" -> "File"
                        [] h[v[2]].t = "D" -> "Directory" [] OTHER -> "Closure")

IsNum(v) == v[1] \in {"i", "I", "f", "F"}
\* values whose type supports equality
HasEq(v) == v[1] \in {"n", "b", "i", "I", "f", "F", "s", "T"}
Same(v, w) ==       \* same type, supports equality
  CASE v[1] = "n" -> TRUE
    [] IsInt(v) -> v = w
    [] v[1] # w[1] -> FALSE            \* floats of different size
    [] v[1] = "F" -> v = w
    [] OTHER -> v[2] = w[2]         \* 0.0 equals -0.0
\* "t", "f" or "e": equal, different, not comparable
Eq(h, v, w) == IF TypeOf(h, v) # TypeOf(h, w) THEN "f"
               ELSE IF ~HasEq(v) THEN "e" ELSE IF Same(v, w) THEN "t" ELSE "f"

\* index of key v in a key sequence, 0 when absent
KeyMatch(k, v) == k[1] = v[1] /\ (IF k[1] = "n" THEN TRUE ELSE IF k[1] \in {"I", "F"} THEN k = v ELSE k[2] = v[2])
KeyAt(ks, v) == LET at == {i \in 1..Len(ks) : KeyMatch(ks[i], v)} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
Keyable(v) == v[1] \in {"n", "b", "i", "I", "f", "F", "s"}
Unkeyed(h, v) == v[1] \in {"T", "x", "any"} \/ (v[1] = "r" /\ h[v[2]].t \in {"F", "B", "N", "S", "H", "D"})
\* lists and maps: such a key is copied into the map, and is found by no key;
\* a map that already holds a key of the same kind is beyond this specification
Compound(h, v) == v[1] = "r" /\ h[v[2]].t \in {"L", "M"}
NoneLike(h, ks, v) == \A i \in 1..Len(ks) : ~(Compound(h, ks[i]) /\ h[ks[i][2]].t = h[v[2]].t)

\* a copy of v in which every container is new: [h, v, e], e an error or "";
\* P: the containers v is part of
RECURSIVE CopyOf(_, _, _), CopySeq(_, _, _, _, _)
CopySeq(h, e, i, done, P) ==
  IF i > Len(e) THEN [h |-> h, v |-> done, e |-> ""]
  ELSE LET c == CopyOf(h, e[i], P) IN
       IF c.e # "" THEN c ELSE CopySeq(c.h, e, i + 1, Append(done, c.v), P)
CopyOf(h, v, P) ==
  IF Keyable(v) \/ v[1] = "m" THEN [h |-> h, v |-> v, e |-> ""]
  ELSE IF ~Compound(h, v) THEN [h |-> h, v |-> v, e |-> "Object " \o TypeOf(h, v) \o " doesn't implement Object_Copy"]
  ELSE IF v[2] \in P THEN [h |-> h, v |-> v, e |-> "Object " \o TypeOf(h, v) \o " contains itself and can't be copied"]
  ELSE IF h[v[2]].t = "L"
       THEN LET c == CopySeq(h, h[v[2]].e, 1, <<>>, P \cup {v[2]}) IN
            IF c.e # "" THEN c
            ELSE [h |-> Append(c.h, [t |-> "L", e |-> c.v]), v |-> VR(Len(c.h) + 1), e |-> ""]
       ELSE LET n == Len(h[v[2]].k)
                c == CopySeq(h, Tup([i \in 1..(2 * n) |-> IF i % 2 = 1 THEN h[v[2]].k[(i + 1) \div 2] ELSE h[v[2]].v[i \div 2]]),
                             1, <<>>, P \cup {v[2]}) IN
            IF \E i \in 1..n : Compound(h, h[v[2]].k[i]) THEN [h |-> h, v |-> v, e |-> "?"]
            ELSE IF c.e # "" THEN c
            ELSE [h |-> Append(c.h, [t |-> "M", k |-> Tup([i \in 1..n |-> c.v[2 * i - 1]]), v |-> Tup([i \in 1..n |-> c.v[2 * i]])]),
                  v |-> VR(Len(c.h) + 1), e |-> ""]

\* indexing; absent elements read as none.  "U": no claim
Select(h, col, key) ==
  CASE col[1] = "r" /\ h[col[2]].t = "L" ->
         IF key[1] = "i" /\ key[2] >= 0 /\ key[2] < Len(h[col[2]].e) THEN h[col[2]].e[key[2] + 1] ELSE VN
    [] col[1] = "r" /\ h[col[2]].t = "M" ->
         IF Keyable(key) THEN LET i == KeyAt(h[col[2]].k, key) IN IF i = 0 THEN VN ELSE h[col[2]].v[i]
         ELSE IF Unkeyed(h, key) \/ (Compound(h, key) /\ NoneLike(h, h[col[2]].k, key)) THEN VN ELSE <<"U">>
    [] col[1] = "r" /\ h[col[2]].t = "B" ->
         LET b == h[col[2]] IN
         IF key[1] = "i" /\ key[2] >= 0 /\ key[2] < b.n THEN VI(h[b.p].b[b.o + key[2] + 1]) ELSE VN
    [] col[1] = "s" ->
         IF key[1] = "i" /\ key[2] >= 0 /\ key[2] < Len(col[2]) THEN VS(Ch(col[2], key[2] + 1)) ELSE VN
    [] col[1] = "m" ->
         IF key[1] # "s" THEN VN
         ELSE IF key[2] \in Members[col[2]] THEN <<"x", col[2] \o "." \o key[2]>>
         ELSE IF \E i \in 1..Len(Constants[col[2]]) : Constants[col[2]][i][1] = key[2]
              THEN Constants[col[2]][CHOOSE i \in 1..Len(Constants[col[2]]) : Constants[col[2]][i][1] = key[2]][2]
         ELSE VN
    [] OTHER -> VN

\* variable lookup: locals, enclosing scopes outward, globals of the language
RECURSIVE ScopeFind(_, _, _)
ScopeFind(h, k, key) ==
  IF k = 0 THEN <<"?">>
  ELSE LET m == h[h[k].m]
           i == KeyAt(m.k, key)
       IN IF i > 0 THEN m.v[i] ELSE ScopeFind(h, h[k].up, key)
Global(h, name) ==
  LET i == KeyAt(h[1].k, VS(name)) IN       \* object 1 holds the library exports
  IF i > 0 THEN h[1].v[i]
  ELSE IF name \in TypeNames THEN VT(name)
  ELSE IF name = "any" THEN <<"any">>
  ELSE IF name \in StaticMaps THEN <<"m", name>>
  ELSE IF name \in BasicNatives THEN <<"x", name>>
  ELSE IF name \in {"__istr", "__fstr"} THEN <<"x", name>>
  ELSE <<"?">>
Lookup(h, fr, name) ==
  LET m == h[fr.l]
      i == KeyAt(m.k, VS(name))
  IN IF i > 0 THEN m.v[i]
     ELSE LET c == ScopeFind(h, fr.k, VS(name)) IN IF c[1] # "?" THEN c ELSE Global(h, name)

(***************************************************************************)
(* Printing                                                                *)
(***************************************************************************)
RECURSIVE Show(_, _, _)
ShowList(h, e, path) == Joined(LAMBDA i : Show(h, e[i], path), Len(e), ", ")
ShowMap(h, k, v, path) == Joined(LAMBDA i : Show(h, k[i], path) \o ": " \o Show(h, v[i], path), Len(k), ", ")
Show(h, v, path) ==
  CASE v[1] = "n" -> "none"
    [] v[1] = "b" -> IF v[2] THEN "true" ELSE "false"
    [] IsInt(v) -> IntText(v)
    [] IsFlt(v) -> FltText(v)
    [] v[1] = "s" -> v[2]
    [] v[1] = "T" -> v[2]
    [] v[1] \in {"x", "m", "any"} -> "<" \o TypeOf(h, v) \o " is unprintable>"
    [] v[1] = "r" ->
       IF v[2] \in path THEN "..."
       ELSE LET o == h[v[2]]
                p == path \cup {v[2]} IN
         CASE o.t = "L" -> "[" \o ShowList(h, o.e, p) \o "]"
           [] o.t = "M" -> "{" \o ShowMap(h, o.k, o.v, p) \o "}"
           [] o.t = "B" -> "[" \o HexList(SubSeq(h[o.p].b, o.o + 1, o.o + o.n)) \o "]"
           [] o.t = "N" -> "?" \o Show(h, o.x, p)
           [] o.t = "S" -> Show(h, o.x, p) \o " | " \o Show(h, o.y, p)
           [] OTHER -> "<" \o TypeOf(h, v) \o " is unprintable>"
Text(h, v) == Show(h, v, {})

(***************************************************************************)
(* Type membership.  A type and a value may both contain themselves; a     *)
(* question that comes back while it is being answered (P: the pending     *)
(* ones) adds nothing, so membership is the largest relation that          *)
(* satisfies the rules.  Beyond 40 pending questions no claim is made.     *)
(***************************************************************************)
RECURSIVE IsA(_, _, _, _), IsAList(_, _, _, _, _), IsAMap(_, _, _, _, _)
IsAList(h, e, x, i, P) ==
  IF i > Len(e) THEN "t"
  ELSE LET r == IsA(h, e[i], x[i], P) IN IF r # "t" THEN r ELSE IsAList(h, e, x, i + 1, P)
IsAMap(h, o, x, i, P) ==
  IF i > Len(o.k) THEN "t"
  ELSE LET xm == h[x[2]]
           j == KeyAt(xm.k, o.k[i])
       IN IF Compound(h, o.k[i]) /\ ~NoneLike(h, xm.k, o.k[i]) THEN "U"
          ELSE IF j = 0 THEN "f"
          ELSE LET r == IsA(h, o.v[i], xm.v[j], P) IN IF r # "t" THEN r ELSE IsAMap(h, o, x, i + 1, P)
IsA(h, ty, x, P) ==
  CASE ty[1] = "T" -> IF ty[2] = TypeOf(h, x) THEN "t" ELSE "f"
    [] ty[1] = "any" -> "t"
    [] ty[1] = "r" ->
       LET o == h[ty[2]]
           Q == IF x[1] = "r" THEN P \cup {<<ty[2], x[2]>>} ELSE P IN
       IF x[1] = "r" /\ <<ty[2], x[2]>> \in P THEN "t"
       ELSE IF Cardinality(P) > 40 THEN "U"
       ELSE
       (CASE o.t = "N" -> IF x[1] = "n" THEN "t" ELSE IsA(h, o.x, x, Q)
          [] o.t = "S" -> LET r == IsA(h, o.x, x, Q) IN IF r # "f" THEN r ELSE IsA(h, o.y, x, Q)
          [] o.t = "L" -> IF TypeOf(h, x) # "List" \/ Len(h[x[2]].e) < Len(o.e) THEN "f"
                          ELSE IsAList(h, o.e, h[x[2]].e, 1, Q)
          [] o.t = "M" -> IF TypeOf(h, x) # "Map" THEN "f" ELSE IsAMap(h, o, x, 1, Q)
          [] OTHER -> "f")
    \* types the program can only obtain by applying type() to a value
    [] OTHER -> "f"

(***************************************************************************)
(* Machine state helpers                                                   *)
(***************************************************************************)
Err(s, cat, msg) == [s EXCEPT !.st = "err", !.cat = cat, !.msg = msg]
Rt(s, msg) == Err(s, "Runtime", msg)
Unsup(s) == [s EXCEPT !.st = "unsup"]
TopFr(s) == s.fr[Len(s.fr)]
\* replace operands of the active frame and move to instruction p
Upd(s, o, p) == [s EXCEPT !.fr[Len(s.fr)].o = o, !.fr[Len(s.fr)].p = p]
Push(s, o, v, p) ==
  IF Len(o) >= MaxOperands THEN Rt(s, "Frame stack limit of 16 reached")
  ELSE Upd(s, Append(o, v), p)
Drop(o, n) == SubSeq(o, 1, Len(o) - n)
Alloc(s, obj) == [s EXCEPT !.h = Append(s.h, obj)]
Next_(s) == Len(s.h) + 1

RECURSIVE PushAll(_, _, _, _)
PushAll(o, rets, want, i) ==       \* rets padded with none up to want
  IF i > want THEN o ELSE PushAll(Append(o, IF i <= Len(rets) THEN rets[i] ELSE VN), rets, want, i + 1)

\* give results to the frame on top (its operands already popped)
Back(s) == [s EXCEPT !.fr[Len(s.fr)].p = @ - 1]      \* the active instruction failed
Deliver(s, rets, want) ==
  LET f == TopFr(s) IN
  IF Len(f.o) + want > MaxOperands THEN Rt(Back(s), "Frame stack limit of 16 reached")
  ELSE [s EXCEPT !.fr[Len(s.fr)].o = PushAll(@, rets, want, 1)]

PopFr(s) == [s EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]

\* the active Noja frame finishes with all of its operands as results
RECURSIVE Finish(_, _)
Finish(s, rets) ==
  IF Len(rets) > MaxRets THEN Rt(s, "Return value limit of 8 reached")
  ELSE LET want == TopFr(s).w
           s2 == PopFr(s) IN
  IF Len(s2.fr) = 0 THEN [s2 EXCEPT !.st = "done", !.ret = rets]
  ELSE IF TopFr(s2).c = 0               \* a script run by import
       THEN LET w == TopFr(s2).w IN Deliver(PopFr(s2), rets, w)
       ELSE Deliver(s2, rets, want)

(***************************************************************************)
(* Insertion                                                               *)
(***************************************************************************)
Put(s, col, key, val, o, p) ==
  LET h == s.h IN
  CASE col[1] = "r" /\ h[col[2]].t = "L" ->
        IF ~IsInt(key) THEN Rt(s, "Non integer key")
        ELSE IF key[1] = "I" \/ key[2] < 0 \/ key[2] > Len(h[col[2]].e) THEN Rt(s, "Out of range index")
        ELSE Upd([s EXCEPT !.h[col[2]].e = IF key[2] = Len(@) THEN Append(@, val) ELSE [@ EXCEPT ![key[2] + 1] = val]], o, p)
    [] col[1] = "r" /\ h[col[2]].t = "M" ->
        IF Keyable(key)
        THEN LET i == KeyAt(h[col[2]].k, key) IN
             IF i > 0 THEN Upd([s EXCEPT !.h[col[2]].v[i] = val], o, p)
             ELSE Upd([s EXCEPT !.h[col[2]].k = Append(@, key), !.h[col[2]].v = Append(@, val)], o, p)
        ELSE IF Unkeyed(h, key) THEN Rt(s, "Object " \o TypeOf(h, key) \o " doesn't implement Object_Copy")
        ELSE IF ~Compound(h, key) \/ ~NoneLike(h, h[col[2]].k, key) THEN Unsup(s)
        ELSE LET c == CopyOf(h, key, {}) IN
             IF c.e = "?" THEN Unsup(s)
             ELSE IF c.e # "" THEN Rt(s, c.e)
             ELSE Upd([s EXCEPT !.h = [c.h EXCEPT ![col[2]].k = Append(@, c.v), ![col[2]].v = Append(@, val)]], o, p)
    [] col[1] = "r" /\ h[col[2]].t = "B" ->
        LET b == h[col[2]] IN
        IF ~IsInt(key) THEN Rt(s, "Non integer key")
        ELSE IF ~IsInt(val) THEN Rt(s, "Non integer value")
        ELSE IF key[1] = "I" \/ key[2] < 0 \/ key[2] >= b.n THEN Rt(s, "Out of range index")
        ELSE IF val[1] = "I" \/ val[2] < 0 \/ val[2] > 255 THEN Rt(s, "Not in range [0, 255]")
        ELSE Upd([s EXCEPT !.h[b.p].b[b.o + key[2] + 1] = val[2]], o, p)
    [] OTHER -> Rt(s, "Object " \o TypeOf(h, col) \o " doesn't implement Object_Insert")

SetVar(s, a, name, v) ==
  LET i == KeyAt(s.h[a].k, VS(name)) IN
  IF i > 0 THEN [s EXCEPT !.h[a].v[i] = v]
  ELSE [s EXCEPT !.h[a].k = Append(@, VS(name)), !.h[a].v = Append(@, v)]

(***************************************************************************)
(* Arithmetic and comparison.  Results: a value, <<"E", message>> or <<"U">> *)
(***************************************************************************)
Arith(op, a, b) ==
  IF op = "MOD" THEN
    IF IsInt(a) /\ IsInt(b) THEN IntArith(op, a, b)
    ELSE <<"E", "Arithmetic operation on a non-numeric object">>
  ELSE IF ~(IsNum(a) /\ IsNum(b)) THEN <<"E", "Arithmetic operation on a non-numeric object">>
  ELSE IF IsInt(a) /\ IsInt(b) THEN IntArith(op, a, b)
  ELSE ArithF(op, ToF(a), ToF(b))
Relate(op, a, b) ==
  IF ~(IsNum(a) /\ IsNum(b)) THEN <<"E", "Relational operation on a non-numeric object">>
  ELSE LET c == IF IsInt(a) /\ IsInt(b) THEN IntCmp(a, b) ELSE FCmp(ToF(a), ToF(b))
       IN VB(CASE op = "LSS" -> c < 0 [] op = "GRT" -> c > 0
                    [] op = "LEQ" -> c <= 0 [] op = "GEQ" -> c >= 0)
Negate(v) == CASE IsInt(v) -> IntNeg(v)
               [] IsFlt(v) -> FltNeg(v)
               [] OTHER -> <<"E", "Negation operand on a non-numeric object">>

(***************************************************************************)
(* Native functions.  Result: <<"ok", state, results>>, <<"err", message>>   *)
(* or <<"unsup">>; the state carries heap, output and input only.           *)
(***************************************************************************)
Ok(s, rets) == <<"ok", s, rets>>
NErr(msg) == <<"err", msg>>
WantedArg(n, what, h, v) ==
  NErr("Argument " \o ToString(n) \o " was expected to be " \o what \o ", but a " \o TypeOf(h, v) \o " was provided")
LineEndAt(t, i) == LET at == {j \in i..Len(t) : Ch(t, j) = "\n"} IN
                   IF at = {} THEN Len(t) + 1 ELSE CHOOSE j \in at : \A x \in at : j <= x
CatArgs(a) == Joined(LAMBDA i : a[i][2], Len(a), "")
NewList(s, e) == Ok(Alloc(s, [t |-> "L", e |-> e]), <<VR(Next_(s))>>)
NewBuf(s, b) ==
  LET n == Next_(s) IN
  Ok([s EXCEPT !.h = s.h \o <<[t |-> "P", b |-> b], [t |-> "B", p |-> n, o |-> 0, n |-> Len(b)]>>], <<VR(n + 1)>>)
RECURSIVE AssertArgs(_, _)
AssertArgs(a, i) ==
  IF i > Len(a) THEN ""
  ELSE IF a[i][1] # "b" THEN "Argument " \o ToString(i - 1) \o " isn't a boolean"
  ELSE IF ~a[i][2] THEN "Assertion failed" ELSE AssertArgs(a, i + 1)
RECURSIVE ShowArgs(_, _, _)
ShowArgs(h, a, i) == IF i > Len(a) THEN <<>> ELSE <<Text(h, a[i])>> \o ShowArgs(h, a, i + 1)
ToIntR(t) ==        \* results of string.toInt
  IF t = "" \/ Ch(t, 1) \notin Digits THEN <<VN, VS("String doesn't contain an integer")>>
  ELSE LET e == DigitsEnd(t, 1)
           v == FromMag(FALSE, MagDigits(SubSeq(t, 1, e - 1)))
       IN IF v[1] = "U" THEN <<VN, VS("An overflow occurred")>>
          ELSE IF e <= Len(t) THEN <<VN, VS("String doesn't contain an integer")>>
          ELSE <<v>>

\* files and directories
Loc(s) == s.fs.loc[TopFr(s).c]        \* where the running code comes from
NewHandle(s, fs, p, m) == Ok([Alloc(s, [t |-> "H", p |-> p, m |-> m, o |-> 0, q |-> ""]) EXCEPT !.fs = fs], <<VR(Next_(s))>>)
OpenFile(s, r, mode) ==
  LET w == IF mode = 1 THEN "w" ELSE "a" IN
  IF r[1] = "?" THEN <<"unsup">>
  ELSE IF r[1] = "no" THEN Ok(s, <<VN, VS(r[2])>>)
  ELSE IF r[1] = "file" THEN NewHandle(s, IF mode = 0 THEN s.fs ELSE Truncated(s.fs, FileAt(s.fs, r[2]), mode # 1),
                                       r[2], IF mode = 0 THEN "r" ELSE w)
  ELSE IF mode = 0 THEN (IF r[1] = "dir" THEN <<"unsup">>
       ELSE Ok(s, <<VN, VS(IF r[1] = "fileslash" THEN "Entity is not a directory" ELSE "File or folder doesn't exist")>>))
  ELSE IF r[1] = "new" THEN NewHandle(s, Created(s.fs, r[2]), r[2], w)
  ELSE Ok(s, <<VN, VS("Entity is a directory")>>)
ReadFile(s, a, n) ==       \* n: bytes wanted, at most the length of the buffer
  LET H == s.h[a[1][2]]
      B == s.h[a[2][2]]
      F == s.fs.f[FileAt(s.fs, H.p)]
      k == Min2(n, Len(F.b) - H.o)
  IN IF n = 0 THEN Ok(s, <<VI(0)>>)
     ELSE IF H.m = "a" THEN Ok(s, <<VI(0)>>)
     ELSE IF H.m = "w" THEN (IF H.q = "" THEN Ok(s, <<VI(0)>>) ELSE <<"unsup">>)
     ELSE IF F.k # "data" \/ F.w > 0 \/ H.q # "" THEN <<"unsup">>
     ELSE Ok([s EXCEPT !.h[B.p].b = Tup([i \in 1..Len(@) |-> IF i > B.o /\ i <= B.o + k THEN F.b[H.o + i - B.o] ELSE @[i]]),
                       !.h[a[1][2]].o = @ + k], <<VI(k)>>)
WriteFile(s, a, n) ==
  LET H == s.h[a[1][2]]
      B == s.h[a[2][2]]
      i == FileAt(s.fs, H.p)
  IN IF n = 0 THEN Ok(s, <<VI(0)>>)
     ELSE IF H.m = "r" THEN Ok([s EXCEPT !.h[a[1][2]].q = "bad"], <<VI(0)>>)
     ELSE Ok([s EXCEPT !.fs.f[i].b = @ \o SubSeq(s.h[B.p].b, B.o + 1, B.o + n), !.h[a[1][2]].q = "used"], <<VI(n)>>)
\* read and write check their arguments alike
FileArgs(s, a, Do(_, _, _)) ==
  LET h == s.h IN
  IF TypeOf(h, a[1]) # "File" THEN WantedArg(1, "a file", h, a[1])
  ELSE IF TypeOf(h, a[2]) # "Buffer" THEN WantedArg(2, "a buffer", h, a[2])
  ELSE IF a[3][1] = "n" THEN Do(s, a, h[a[2][2]].n)
  ELSE IF ~IsInt(a[3]) THEN WantedArg(3, "an int", h, a[3])
  ELSE IF NegInt(a[3]) THEN NErr("Argument count must be a non-negative integer")
  ELSE Do(s, a, IF a[3][1] = "I" THEN h[a[2][2]].n ELSE Min2(a[3][2], h[a[2][2]].n))

\* the first argument that isn't of the kind wanted
Kind(w) == CASE w = "int" -> "an int" [] w = "bool" -> "bool" [] w = "buffer" -> "a buffer" [] w = "string" -> "a string"
KindOk(h, w, v) == CASE w = "int" -> IsInt(v) [] w = "bool" -> v[1] = "b" [] w = "buffer" -> TypeOf(h, v) = "Buffer" [] w = "string" -> v[1] = "s"
ArgsBad(h, a, want, opt) ==      \* opt: positions that may be none
  LET bad == {i \in 1..Len(want) : ~(i \in opt /\ a[i][1] = "n") /\ ~KindOk(h, want[i], a[i])}
      i == CHOOSE i \in bad : \A j \in bad : i <= j
  IN IF bad = {} THEN <<>> ELSE WantedArg(i, Kind(want[i]), h, a[i])

\* sockets and random numbers
Net(s, r) == IF r = Unclear THEN <<"unsup">> ELSE Ok([s EXCEPT !.fs.net = r[1]], r[2])
\* how many bytes of buffer b a count of v means
CountOf(h, b, v) == IF v[1] = "n" \/ v[1] = "I" THEN h[b[2]].n ELSE Min2(v[2], h[b[2]].n)
Receive(s, a) ==
  LET r == NetRecv(s.fs.net, a[1], CountOf(s.h, a[2], a[3])) IN
  IF r = Unclear THEN <<"unsup">>
  ELSE IF Len(r) = 2 THEN Net(s, r)
  ELSE LET B == s.h[a[2][2]]
           k == Len(r[3])
       IN Ok([s EXCEPT !.fs.net = r[1], !.h[B.p].b = Tup([i \in 1..Len(@) |-> IF i > B.o /\ i <= B.o + k THEN r[3][i - B.o] ELSE @[i]])], <<VI(k)>>)
Send(s, a) ==
  LET B == s.h[a[2][2]] IN
  Net(s, NetSend(s.fs.net, a[1], SubSeq(s.h[B.p].b, B.o + 1, B.o + CountOf(s.h, a[2], a[3]))))
NetCall(s, x, a) ==
  LET h == s.h
      w == s.fs.net
      bad == CASE x = "net.socket" -> ArgsBad(h, a, <<"int", "int", "int", "bool">>, {4})
               [] x = "net.bind" -> ArgsBad(h, a, <<"int", "int", "int", "string">>, {4})
               [] x = "net.listen" -> ArgsBad(h, a, <<"int", "int">>, {})
               [] x \in {"net.accept", "net.close"} -> ArgsBad(h, a, <<"int">>, {})
               [] OTHER -> ArgsBad(h, a, <<"int", "buffer", "int">>, {3})
  IN IF bad # <<>> THEN bad
     ELSE IF x \in {"net.recv", "net.send"} /\ a[3][1] # "n" /\ NegInt(a[3]) THEN Ok(s, <<VN, VS("Invalid negative count")>>)
     ELSE IF ~w.on THEN <<"unsup">>
     ELSE CASE x = "net.socket" -> Net(s, NetSocket(w, a[1], a[2], a[3], a[4] = VB(TRUE)))
            [] x = "net.bind" -> Net(s, NetBind(w, a[1], a[2], a[3], IF a[4][1] = "n" THEN AnyIp ELSE a[4][2]))
            [] x = "net.listen" -> Net(s, NetListen(w, a[1], a[2]))
            [] x = "net.accept" -> Net(s, NetAccept(w, a[1]))
            [] x = "net.close" -> Net(s, NetClose(w, a[1]))
            [] x = "net.recv" -> Receive(s, a)
            [] OTHER -> Send(s, a)
Generate(s, a) ==
  LET bad == ArgsBad(s.h, a, <<"int", "int">>, {1, 2})
      lo == IF a[1][1] = "n" THEN VI(0) ELSE a[1]
      hi == IF a[2][1] = "n" THEN FromMag(FALSE, Max64) ELSE a[2]
  IN IF bad # <<>> THEN bad
     ELSE IF s.fs.net.pol = 0 \/ IntCmp(lo, hi) > 0 THEN <<"unsup">>
     ELSE Ok([s EXCEPT !.fs.rnd.n = @ + 1], <<PickRandom(s.fs.net.pol, s.fs.rnd, lo, hi)>>)

Native(s, x, a) ==
  LET h == s.h IN
  CASE x = "type" -> Ok(s, <<VT(TypeOf(h, a[1]))>>)
    [] x = "typename" -> Ok(s, <<VS(TypeOf(h, a[1]))>>)
    [] x = "print" -> Ok([s EXCEPT !.out = @ \o ShowArgs(h, a, 1)], <<>>)
    [] x = "assert" -> LET m == AssertArgs(a, 1) IN IF m = "" THEN Ok(s, <<>>) ELSE NErr(m)
    [] x = "error" -> IF a[1][1] = "s" THEN NErr(a[1][2]) ELSE NErr("Argument is not a string")
    [] x = "istypeof" -> LET r == IsA(h, a[1], a[2], {}) IN IF r = "U" THEN <<"unsup">> ELSE Ok(s, <<VB(r = "t")>>)
    [] x = "count" ->
        (CASE a[1][1] = "s" -> Ok(s, <<VI(Len(a[1][2]))>>)
           [] a[1][1] = "r" /\ h[a[1][2]].t = "L" -> Ok(s, <<VI(Len(h[a[1][2]].e))>>)
           [] a[1][1] = "r" /\ h[a[1][2]].t = "M" -> Ok(s, <<VI(Len(h[a[1][2]].k))>>)
           [] a[1][1] = "r" /\ h[a[1][2]].t = "B" -> Ok(s, <<VI(h[a[1][2]].n)>>)
           [] OTHER -> NErr("Object " \o TypeOf(h, a[1]) \o " doesn't implement Object_Count"))
    [] x = "keysof" ->
        LET n == CASE a[1][1] = "s" -> Len(a[1][2])
                   [] a[1][1] = "r" /\ h[a[1][2]].t = "L" -> Len(h[a[1][2]].e)
                   [] a[1][1] = "r" /\ h[a[1][2]].t = "B" -> h[a[1][2]].n
                   [] OTHER -> -1
        IN IF a[1][1] = "r" /\ h[a[1][2]].t = "M" THEN NewList(s, h[a[1][2]].k)
           ELSE IF n >= 0 THEN NewList(s, Tup([i \in 1..n |-> VI(i - 1)]))
           ELSE Ok(s, <<VN>>)
    [] x = "input" ->
        LET e == LineEndAt(s.inp, 1) IN
        IF \E i \in 1..(e - 1) : CodeOf[Ch(s.inp, i)] \in 55296..57343        \* a byte outside of any character
        THEN NErr("Invalid UTF-8 sequence") ELSE
        Ok([s EXCEPT !.inp = SubSeq(s.inp, e + 1, Len(s.inp)), !.fs.net = PeersMove(@)], <<VS(SubSeq(s.inp, 1, e - 1))>>)
    [] x = "string.ord" ->
        IF a[1][1] # "s" THEN NErr("Argument #1 is not a string")
        ELSE IF a[1][2] = "" THEN NErr("Argument #1 is an empty string")
        ELSE Ok(s, <<VI(CodeOf[Ch(a[1][2], 1)])>>)
    [] x = "string.chr" ->
        IF ~IsInt(a[1]) THEN NErr("Argument #1 is not an integer")
        ELSE IF a[1][1] = "I" \/ a[1][2] < 0 \/ a[1][2] > 1114111 \/ a[1][2] \in 55296..57343 THEN NErr("Argument #1 is not valid utf-32")
        ELSE IF a[1][2] \notin UnivSet THEN <<"unsup">>
        ELSE Ok(s, <<VS(CharOf[a[1][2]])>>)
    [] x = "string.cat" ->
        LET bad == {i \in 1..Len(a) : a[i][1] # "s"} IN
        IF bad # {} THEN NErr("Argument #" \o ToString(CHOOSE i \in bad : \A j \in bad : i <= j) \o " is not a string")
        ELSE Ok(s, <<VS(CatArgs(a))>>)
    [] x = "string.trim" ->
        IF a[1][1] # "s" THEN WantedArg(1, "a string", h, a[1]) ELSE Ok(s, <<VS(Trim(a[1][2]))>>)
    [] x = "string.toInt" ->
        IF a[1][1] # "s" THEN WantedArg(1, "a string", h, a[1])
        ELSE Ok(s, ToIntR(a[1][2]))
    [] x = "string.slice" ->
        (IF a[1][1] # "s" THEN WantedArg(1, "a string", h, a[1])
         ELSE IF a[2][1] \notin {"n", "i", "I"} THEN WantedArg(2, "an int", h, a[2])
         ELSE IF a[3][1] \notin {"n", "i", "I"} THEN WantedArg(3, "an int", h, a[3])
         ELSE IF a[2][1] = "I" \/ a[3][1] = "I" THEN
           (IF a[2][1] # "n" /\ NegInt(a[2]) THEN NErr("starting offset of string slice must be non-negative")
            ELSE IF a[3][1] # "n" /\ NegInt(a[3]) THEN NErr("length of string slice must be non-negative")
            ELSE IF a[2][1] = "I" \/ (a[2][1] = "i" /\ a[2][2] > ByteLen(a[1][2]))
                 THEN NErr("string slice offset is out of bounds")
            ELSE NErr("string slice length is out of bounds"))
         ELSE LET t == a[1][2]
                  n == ByteLen(t)
                  o == IF a[2][1] = "i" THEN a[2][2] ELSE 0
                  l == IF a[3][1] = "i" THEN a[3][2] ELSE n - o
              IN IF o < 0 THEN NErr("starting offset of string slice must be non-negative")
                 ELSE IF a[3][1] = "i" /\ l < 0 THEN NErr("length of string slice must be non-negative")
                 ELSE IF o > n THEN NErr("string slice offset is out of bounds")
                 ELSE IF o + l > n THEN NErr("string slice length is out of bounds")
                 ELSE LET i == AtByte(t, o)
                          j == AtByte(t, o + l)
                      IN IF l = 0 THEN Ok(s, <<VS("")>>)
                         ELSE IF i = 0 \/ j = 0 THEN NErr("Invalid UTF-8 sequence")
                         ELSE Ok(s, <<VS(SubSeq(t, i, j - 1))>>))
    [] x = "buffer.new" ->
        IF ~IsInt(a[1]) THEN NErr("Argument is not an int")
        ELSE IF NegInt(a[1]) THEN NErr("Buffer size must be non-negative")
        ELSE IF a[1][1] = "I" \/ a[1][2] > 200000 THEN <<"unsup">>
        ELSE NewBuf(s, Tup([i \in 1..a[1][2] |-> 0]))
    [] x = "buffer.fromString" ->
        IF a[1][1] # "s" THEN WantedArg(1, "a string", h, a[1]) ELSE NewBuf(s, Bytes(a[1][2]))
    [] x = "buffer.sliceUp" ->
        (IF TypeOf(h, a[1]) # "Buffer" THEN WantedArg(1, "a buffer", h, a[1])
         ELSE IF ~IsInt(a[2]) THEN WantedArg(2, "an int", h, a[2])
         ELSE IF ~IsInt(a[3]) THEN WantedArg(3, "an int", h, a[3])
         ELSE LET b == h[a[1][2]] IN
              IF a[2][1] = "I" \/ a[2][2] < 0 \/ a[2][2] >= b.n THEN NErr("Offset out of range")
              ELSE IF a[3][1] = "I" \/ a[3][2] < 0 \/ a[3][2] > b.n - a[2][2] THEN NErr("Length out of range")
              ELSE Ok(Alloc(s, [t |-> "B", p |-> b.p, o |-> b.o + a[2][2], n |-> a[3][2]]), <<VR(Next_(s))>>))
    [] x = "buffer.toString" ->
        IF TypeOf(h, a[1]) # "Buffer" THEN NErr("Argument is not a buffer")
        ELSE LET b == h[a[1][2]]
                 u == DecodeAll(SubSeq(h[b.p].b, b.o + 1, b.o + b.n))
             IN IF u = <<-1>> THEN Ok(s, <<VN, VS("Buffer doesn't contain valid UTF-8")>>)
                ELSE IF \E i \in 1..Len(u) : u[i] \notin UnivSet THEN <<"unsup">>
                ELSE Ok(s, <<VS(FromCodes(u))>>)
    [] x \in {"math.floor", "math.ceil"} ->
        IF ~IsFlt(a[1]) THEN NErr("Expected first argument to be a float, but it's a " \o TypeOf(h, a[1]))
        ELSE LET r == RoundDown(a[1], x = "math.ceil") IN IF r[1] = "E" THEN NErr("The result doesn't fit in an integer") ELSE Ok(s, <<r>>)
    [] x \in {"math.pow", "math.atan2"} ->
        (IF ~IsFlt(a[1]) THEN NErr("Expected first argument to be a float, but it's a " \o TypeOf(h, a[1]))
         ELSE IF ~IsFlt(a[2]) THEN NErr("Expected second argument to be a float, but it's a " \o TypeOf(h, a[2]))
         ELSE IF x = "math.pow" /\ FZero(a[2]) THEN Ok(s, <<VF(64, FALSE)>>)
         ELSE IF x = "math.pow" /\ a[2] = VF(64, FALSE) THEN Ok(s, <<a[1]>>)
         ELSE IF x = "math.pow" /\ a[1] = VF(64, FALSE) THEN Ok(s, <<a[1]>>)
         ELSE IF x = "math.pow" /\ ~FZero(a[1]) /\ a[2][1] = "f" /\ a[2][2] % 64 = 0 /\ Abs(a[2][2]) <= 25600     \* exact
              THEN LET r == FPow(a[1], a[2][2] \div 64) IN IF r[1] = "U" THEN <<"unsup">> ELSE Ok(s, <<r>>)
         ELSE <<"unsup">>)
    [] x \in {"math.sqrt", "math.sin", "math.cos", "math.tan", "math.asin", "math.acos", "math.atan",
              "math.exp", "math.log", "math.log10"} ->
        IF ~IsFlt(a[1]) THEN NErr("Expected first argument to be a float, but it's a " \o TypeOf(h, a[1]))
        ELSE (CASE x \in {"math.sqrt", "math.sin", "math.tan", "math.asin", "math.atan"} /\ FZero(a[1]) -> Ok(s, <<a[1]>>)
                [] x = "math.sqrt" /\ ~FNeg(a[1]) ->
                     LET r == FSqrt(a[1]) IN IF r[1] = "U" THEN <<"unsup">> ELSE Ok(s, <<r>>)
                [] x \in {"math.cos", "math.exp"} /\ FZero(a[1]) -> Ok(s, <<VF(64, FALSE)>>)
                [] x \in {"math.log", "math.log10", "math.acos"} /\ a[1] = VF(64, FALSE) -> Ok(s, <<VF(0, FALSE)>>)
                [] x = "math.log10" /\ FLog10(a[1]) >= 0 -> Ok(s, <<VF(64 * FLog10(a[1]), FALSE)>>)
                [] OTHER -> <<"unsup">>)
    [] x = "__istr" -> Ok(s, <<VS(IntText(a[1]))>>)
    [] x = "__fstr" -> LET r == FltShort(a[1]) IN IF r = "" THEN <<"unsup">> ELSE Ok(s, <<VS(r)>>)
    [] x = "random.seed" ->
        IF ~IsInt(a[1]) THEN WantedArg(1, "an int", h, a[1]) ELSE Ok([s EXCEPT !.fs.rnd = [s |-> a[1], n |-> 0]], <<VN>>)
    [] x = "random.generate" -> Generate(s, a)
    [] x \in {"net." \o m : m \in Members["net"]} -> NetCall(s, x, a)
    [] ~s.fs.on -> <<"unsup">>
    [] x = "files.openFile" ->
        IF a[1][1] # "s" THEN WantedArg(1, "a string", h, a[1])
        ELSE IF ~IsInt(a[2]) THEN WantedArg(2, "an int", h, a[2])
        ELSE IF a[2][1] = "I" \/ a[2][2] \notin 0..3 THEN NErr("Invalid file mode")
        ELSE OpenFile(s, Resolve(s.fs, s.fs.cwd, a[1][2]), a[2][2])
    [] x = "files.read" -> FileArgs(s, a, ReadFile)
    [] x = "files.write" -> FileArgs(s, a, WriteFile)
    [] x = "files.openDir" ->
        IF a[1][1] # "s" THEN NErr("Expected first argument to be a string, but it's a " \o TypeOf(h, a[1]))
        ELSE LET r == Resolve(s.fs, s.fs.cwd, a[1][2]) IN
             (CASE r[1] = "?" -> <<"unsup">>
                [] r[1] = "dir" -> Ok(Alloc(s, [t |-> "D", q |-> DirItems(s.fs, r[2]), v |-> s.fs.v]), <<VR(Next_(s))>>)
                [] OTHER -> Ok(s, <<>>))
    [] x = "files.nextDirItem" ->
        IF TypeOf(h, a[1]) # "Directory" THEN NErr("Expected first argument to be a directory, but it's a " \o TypeOf(h, a[1]))
        ELSE LET D == h[a[1][2]] IN
             IF D.v # s.fs.v THEN <<"unsup">>
             ELSE IF D.q = <<>> THEN Ok(s, <<>>)
             ELSE Ok([s EXCEPT !.h[a[1][2]].q = Tail(@)], <<VS(D.q[1])>>)
    [] x = "getCurrentWorkingDirectory" -> Ok(s, <<VS(PathText(s.fs.cwd))>>)
    [] x = "getCurrentScriptLocation" -> Ok(s, <<IF Loc(s) = <<>> THEN VN ELSE VS(PathText(Loc(s)))>>)
    [] x = "getCurrentScriptDirectory" -> Ok(s, <<IF Loc(s) = <<>> THEN VN ELSE VS(PathText(Parent(Loc(s))) \o "/")>>)
    [] OTHER -> <<"unsup">>

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
RECURSIVE Fit(_, _, _)
Fit(args, n, i) == IF i > n THEN <<>>
                   ELSE <<IF i <= Len(args) THEN args[i] ELSE VN>> \o Fit(args, n, i + 1)
NativeFrame(want) == [c |-> 0, p |-> 0, o |-> <<>>, l |-> 0, k |-> 0, w |-> want]
NewFrame(s, c, p, args, k, want) ==
  [c |-> c, p |-> p, o |-> args, l |-> Next_(s), k |-> k, w |-> want]
EmptyMap == [t |-> "M", k |-> <<>>, v |-> <<>>]
TooDeep(s) == Err(s, "Internal", "Maximum nested call limit of 16 was reached")

\* run the script of file number i of the file system; s has the native frame
RunScript(s, i, cx) ==
  LET c == s.fs.f[i].c IN
  IF s.fs.f[i].k # "script" THEN Unsup(s)
  ELSE IF cx.bad[c] # <<>>           \* the trace names the script that has no code
       THEN (IF Len(s.fr) >= MaxFrames THEN Unsup(s)
             ELSE Err([s EXCEPT !.fr = Append(@, NewFrame(s, c, 0, <<>>, 0, 0))], cx.bad[c][1], cx.bad[c][2]))
  ELSE IF Len(s.fr) >= MaxFrames THEN TooDeep(s)
  ELSE [s EXCEPT !.h = Append(@, EmptyMap), !.fr = Append(@, NewFrame(s, c, 1, <<>>, 0, 0))]
\* import: paths start from the folder of the running script
Import(s, s1, t, cx) ==
  IF ~s.fs.on THEN Unsup(s)
  ELSE IF Len(t) > 1100 THEN Err(s1, "any", "")
  ELSE LET r == Resolve(s.fs, IF Loc(s) = <<>> THEN s.fs.cwd ELSE Parent(Loc(s)), t) IN
    IF r[1] = "?" THEN Unsup(s)
    ELSE IF r[1] # "file" THEN Err(s1, "any", "")
    ELSE RunScript(s1, FileAt(s.fs, r[2]), cx)

\* s: the state with callee and arguments already popped
Invoke(s, f, args, want, cx) ==
  IF f[1] = "r" /\ s.h[f[2]].t = "F" THEN
    LET o == s.h[f[2]] IN
    IF Len(s.fr) >= MaxFrames THEN TooDeep(Back(s))
    ELSE IF o.n > MaxOperands THEN Unsup(s)
    ELSE [s EXCEPT !.h = Append(@, EmptyMap),
                   !.fr = Append(@, NewFrame(s, o.c, o.p, Fit(args, o.n, 1), o.u, want))]
  ELSE IF f[1] = "x" THEN
    LET n == NativeArgc(f[2])
        a == IF n < 0 THEN args ELSE Fit(args, n, 1)
    IN IF Len(s.fr) >= MaxFrames - (IF f[2] = "__istr" THEN 1 ELSE 0)    \* the library's own helpers call further
       THEN TooDeep(Back(s))
       ELSE IF f[2] = "import" THEN
         LET s1 == [s EXCEPT !.fr = Append(@, NativeFrame(want))] IN
         IF a[1][1] # "s" THEN Rt(s1, WantedArg(1, "a string", s.h, a[1])[2])
         ELSE Import(s, s1, a[1][2], cx)
       ELSE LET r == Native(s, f[2], a) IN
         IF r[1] = "ok" THEN Deliver(r[2], r[3], want)
         ELSE IF r[1] = "err" THEN Rt([s EXCEPT !.fr = Append(@, NativeFrame(want))], r[2])
         ELSE Unsup(s)
  ELSE Rt(Back(s), "Object of type " \o TypeOf(s.h, f) \o " isn't callable")

(***************************************************************************)
(* One instruction                                                         *)
(***************************************************************************)
RECURSIVE RevArgs(_, _, _)
RevArgs(o, n, i) == IF i > n THEN <<>> ELSE <<o[Len(o) - i]>> \o RevArgs(o, n, i + 1)

Underflow(s, in) == Err(s, "any", "")
Needs(op, in) ==
  CASE op \in {"POS", "NEG", "NOT", "NLB", "ASS", "PUSHTYP", "JUMPIFANDPOP", "JUMPIFNOTANDPOP"} -> 1
    [] op \in {"ADD", "SUB", "MUL", "DIV", "MOD", "EQL", "NQL", "LSS", "GRT", "LEQ", "GEQ", "STP",
               "CHECKTYPE", "SELECT", "SELECT2"} -> 2
    [] op \in {"INSERT", "INSERT2"} -> 3
    [] op = "POP" -> in[3]
    [] op = "CALL" -> in[3] + 1
    [] OTHER -> 0

Value(s, o, n, v, p) ==     \* n operands consumed, v produced
  IF v[1] = "E" THEN Rt(s, v[2]) ELSE IF v[1] = "U" THEN Unsup(s) ELSE Push(s, Drop(o, n), v, p)

Exec(s, in, cx) ==
  LET f == TopFr(s)
      o == f.o
      n == Len(o)
      op == in[1]
      p == f.p + 1
      h == s.h IN
  IF n < Needs(op, in) THEN Underflow(s, in) ELSE
  CASE op = "PUSHVAR" ->
        LET v == Lookup(h, f, in[3]) IN
        IF v[1] = "?" THEN Rt(s, "Reference to undefined variable \"" \o in[3] \o "\"") ELSE Push(s, o, v, p)
    [] op = "PUSHINT" -> Push(s, o, in[3], p)
    [] op = "PUSHSTR" -> Push(s, o, VS(in[3]), p)
    [] op = "PUSHFLT" -> Push(s, o, in[3], p)
    [] op = "PUSHNNE" -> Push(s, o, VN, p)
    [] op = "PUSHTRU" -> Push(s, o, VB(TRUE), p)
    [] op = "PUSHFLS" -> Push(s, o, VB(FALSE), p)
    [] op = "PUSHNNETYP" -> Push(s, o, VT("None"), p)
    [] op = "PUSHTYP" -> Push(s, o, VT(TypeOf(h, o[n])), p)
    [] op = "ASS" -> Upd(SetVar(s, f.l, in[3], o[n]), o, p)
    [] op = "POP" -> Upd(s, Drop(o, in[3]), p)
    [] op \in {"ADD", "SUB", "MUL", "DIV", "MOD"} -> Value(s, o, 2, Arith(op, o[n - 1], o[n]), p)
    [] op \in {"LSS", "GRT", "LEQ", "GEQ"} -> Value(s, o, 2, Relate(op, o[n - 1], o[n]), p)
    [] op \in {"EQL", "NQL"} ->
        LET e == Eq(h, o[n - 1], o[n]) IN
        IF e = "e" THEN Rt(s, "Object " \o TypeOf(h, o[n]) \o " doesn't implement Object_Compare")
        ELSE Push(s, Drop(o, 2), VB((e = "t") = (op = "EQL")), p)
    [] op = "JUMP" -> Upd(s, o, in[3])
    [] op \in {"JUMPIFANDPOP", "JUMPIFNOTANDPOP"} ->
        IF o[n][1] # "b" THEN Rt(s, "Not a boolean")
        ELSE Upd(s, Drop(o, 1), IF o[n][2] = (op = "JUMPIFANDPOP") THEN in[3] ELSE p)
    [] op = "CALL" -> Invoke(Upd(s, Drop(o, in[3] + 1), p), o[n], RevArgs(o, in[3], 1), in[4], cx)
    [] op = "RETURN" -> IF in[3] # n THEN Unsup(s) ELSE Finish(s, o)
    [] op = "EXIT" -> IF n >= MaxOperands THEN Rt(s, "Frame stack limit of 16 reached") ELSE Finish(s, Append(o, VR(f.l)))
    [] op = "SELECT" -> Value(s, o, 2, Select(h, o[n - 1], o[n]), p)
    [] op = "SELECT2" -> Value(s, o, 1, Select(h, o[n - 1], o[n]), p)
    [] op = "INSERT" -> Put(s, o[n - 2], o[n - 1], o[n], Drop(o, 2), p)
    [] op = "INSERT2" -> Put(s, o[n - 1], o[n], o[n - 2], Drop(o, 2), p)
    [] op = "PUSHLST" -> Push(Alloc(s, [t |-> "L", e |-> <<>>]), o, VR(Next_(s)), p)
    [] op = "PUSHMAP" -> Push(Alloc(s, EmptyMap), o, VR(Next_(s)), p)
    [] op = "PUSHFUN" ->
        LET a == Next_(s) IN
        Push([s EXCEPT !.h = s.h \o <<[t |-> "C", up |-> f.k, m |-> f.l],
                                      [t |-> "F", c |-> f.c, p |-> in[3], n |-> in[4], u |-> a]>>],
             o, VR(a + 1), p)
    [] op = "CHECKTYPE" ->
        LET r == IsA(h, o[n], o[n - 1], {}) IN
        IF r = "U" THEN Unsup(s)
        ELSE IF r = "t" THEN Upd(s, Drop(o, 1), p)
        ELSE LET ty == Text(h, o[n])
                 va == Text(h, o[n - 1])
             IN IF ByteLen(ty) > 500 \/ ByteLen(va) > 500 THEN Unsup(s)
                ELSE Rt(s, "Argument " \o ToString(in[3] + 1) \o " \"" \o in[4]
                        \o "\" has an unallowed type. Was expected something with type " \o ty
                        \o " but was provided " \o va)
    [] op = "POS" -> Upd(s, o, p)
    [] op = "NEG" -> Value(s, o, 1, Negate(o[n]), p)
    [] op = "NOT" -> IF o[n][1] # "b" THEN Rt(s, "NOT operand isn't a boolean") ELSE Push(s, Drop(o, 1), VB(~o[n][2]), p)
    [] op = "NLB" -> Push(Alloc(s, [t |-> "N", x |-> o[n]]), Drop(o, 1), VR(Next_(s)), p)
    [] op = "STP" -> Push(Alloc(s, [t |-> "S", x |-> o[n - 1], y |-> o[n]]), Drop(o, 2), VR(Next_(s)), p)
    [] op = "NOPE" -> Upd(s, o, p)
    [] OTHER -> Unsup(s)

Step(s, cx) ==
  LET f == TopFr(s)
      code == cx.code[f.c]
  IN IF f.p < 1 THEN Unsup(s)
     ELSE IF f.p > Len(code) THEN Err(s, "Internal", "Invalid instruction index " \o ToString(f.p - 1))
     ELSE Exec(s, code[f.p], cx)

Run(s, cx, fuel) ==
  FoldLeft(LAMBDA t, i : IF t.st # "run" THEN t ELSE Step(t, cx), s, [i \in 1..fuel |-> i])

Start(h, c, inp) ==      \* a fresh machine about to run code c from its beginning
  [h |-> Append(h, EmptyMap), fr |-> <<[c |-> c, p |-> 1, o |-> <<>>, l |-> Len(h) + 1, k |-> 0, w |-> 0]>>,
   out |-> <<>>, st |-> "run", cat |-> "", msg |-> "", inp |-> inp, ret |-> <<>>, fs |-> NoFs]

\* line numbers of the active frames, innermost first; -1: a native function,
\* 0: library code or unknown
Lines(s, cx) ==
  [i \in 1..Len(s.fr) |->
    LET j == Len(s.fr) + 1 - i
        f == s.fr[j]
    IN IF f.c = 0 THEN <<0, -1>>
       ELSE LET p == IF i = 1 THEN f.p ELSE f.p - 1
            IN <<f.c, IF p >= 1 /\ p <= Len(cx.code[f.c]) THEN cx.code[f.c][p][2] ELSE 0>>]

(***************************************************************************)
(* Objects reachable from the results, as <<address, object>> pairs         *)
(***************************************************************************)
Refs(o) ==
  CASE o.t = "L" -> {o.e[i][2] : i \in {i \in 1..Len(o.e) : o.e[i][1] = "r"}}
    [] o.t = "M" -> {o.v[i][2] : i \in {i \in 1..Len(o.v) : o.v[i][1] = "r"}} \cup {o.k[i][2] : i \in {i \in 1..Len(o.k) : o.k[i][1] = "r"}}
    [] o.t = "B" -> {o.p}
    [] o.t = "N" -> IF o.x[1] = "r" THEN {o.x[2]} ELSE {}
    [] o.t = "S" -> (IF o.x[1] = "r" THEN {o.x[2]} ELSE {}) \cup (IF o.y[1] = "r" THEN {o.y[2]} ELSE {})
    [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(h, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET nxt == UNION {Refs(h[a]) : a \in todo}
       IN Reach(h, seen \cup todo, nxt \ (seen \cup todo))
RetRoots(s) == {s.ret[i][2] : i \in {i \in 1..Len(s.ret) : s.ret[i][1] = "r"}}
=============================================================================
