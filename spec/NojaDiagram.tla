---------------------------- MODULE NojaDiagram ----------------------------
(***************************************************************************)
(* The diagram of a program's syntax tree: every construct is a node with a *)
(* label and its parts as children.  A tree is <<label, n, children>> where *)
(* the first n children come in that order, those after (parameters, the    *)
(* arguments of a call) in any; a label is <<"t", text>>, <<"v", integer>>   *)
(* or <<"f", float>>.                                                      *)
(***************************************************************************)
EXTENDS NojaSyntax, Json, IOUtils, CSV

CONSTANTS InFile, OutFile
In == JsonDeserialize(InFile)
RunChars == In.chars

Node_(t, kids) == <<<<"t", t>>, Len(kids), kids>>
Label(op) == CASE op = "not" -> "!" [] op = "?" -> "Nullable Type" [] op = "|" -> "Sum Type" [] op = "*" -> "&times;" [] OTHER -> op

RECURSIVE DFlat(_)
DFlat(n) == IF n[1] = "pair" THEN DFlat(n[4]) \o DFlat(n[5]) ELSE <<n>>

RECURSIVE D(_), DFun(_, _)
Kids(ns) == Tup([i \in 1..Len(ns) |-> D(ns[i])])
D(n) ==
  LET k == n[1] IN
  CASE k = "int" -> <<<<"v", n[3]>>, 0, <<>>>>
    [] k = "flt" -> <<<<"f", n[3]>>, 0, <<>>>>
    [] k = "big" -> <<<<"?">>, 0, <<>>>>
    [] k \in {"str", "id"} -> Node_(n[3], <<>>)
    [] k \in {"none", "true", "false"} -> Node_(k, <<>>)
    [] k = "un" -> Node_(Label(n[3]), <<D(n[4])>>)
    [] k \in {"bin", "pair", "ass"} -> Node_(Label(n[3]), <<D(n[4]), D(n[5])>>)
    [] k = "list" -> Node_("List", Kids(n[3]))
    [] k = "map" -> Node_("Map", Tup([i \in 1..Len(n[3]) |-> Node_("Entry", <<D(n[3][i]), D(n[4][i])>>)]))
    [] k = "call" -> <<<<"t", "Call">>, 1, <<D(n[3])>> \o Kids(n[4])>>
    [] k = "sel" -> Node_("Select", <<D(n[3]), D(n[4])>>)
    [] k = "arw" -> Node_("->", <<D(n[3]), D(n[4])>>)
    [] k = "fn" -> DFun("???", n)
    [] k = "fun" -> DFun(n[3], n[4])
    [] k = "expr" -> D(n[3])
    [] k = "comp" -> Node_("compound", Kids(n[3]))
    [] k = "break" -> Node_("break", <<>>)
    [] k = "ret" -> Node_("return", Kids(DFlat(n[3])))
    [] k = "if" -> IF n[5] = <<>> THEN Node_("if", <<D(n[3]), D(n[4])>>) ELSE Node_("if-else", <<D(n[3]), D(n[4]), D(n[5])>>)
    [] k = "while" -> Node_("while", <<D(n[3]), D(n[4])>>)
    [] k = "dow" -> Node_("do-while", <<D(n[4]), D(n[3])>>)
\* parameters carry their default and type, in no particular order
DFun(name, n) ==
  Node_(name, <<
    <<<<"t", "args">>, 0, Tup([i \in 1..Len(n[3]) |->
        LET p == n[3][i] IN
        <<<<"t", p[1]>>, 0, (IF p[2] = <<>> THEN <<>> ELSE <<D(p[2])>>) \o (IF p[3] = <<>> THEN <<>> ELSE <<D(p[3])>>)>>])>>,
    D(n[4])>>)

Diagram(src) ==
  LET p == ParseProgram(src) IN
  IF p[1] = "ok" THEN <<"ok", Node_("compound", Kids(p[2]))>> ELSE p

VARIABLES d, k
Init == d = TLCEval(In.scns) /\ k = 1
Next == /\ k <= Len(d)
        /\ CSVWrite("%1$s", <<ToJson([id |-> d[k].id, res |-> Diagram(d[k].src)])>>, OutFile)
        /\ k' = k + 1
        /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, k>>
View == k
=============================================================================
