------------------------------- MODULE NojaFS -------------------------------
(***************************************************************************)
(* The file system as programs see it.  The world is a tree rooted at /w.   *)
(* A path is a sequence of names.  State fs:                                *)
(*   cwd  working directory                                                 *)
(*   f    files [p path, b bytes, k kind, w writers, c code]; kind "data",  *)
(*        "script" (a Noja source, c says which; its bytes are not           *)
(*        described) or "?" (contents not determined)                       *)
(*   d    directories (a set of paths)                                      *)
(*   v    number of files created so far                                    *)
(*   loc  path of the script each piece of code comes from, <<>> when it    *)
(*        does not come from a file                                         *)
(***************************************************************************)
EXTENDS NojaAsm

Min2(a, b) == IF a < b THEN a ELSE b

\* names of a path text, left to right ("" between and after slashes)
Names(t) ==
  LET r == FoldLeft(LAMBDA acc, i : IF Ch(t, i) = "/" THEN <<Append(acc[1], acc[2]), "">> ELSE <<acc[1], acc[2] \o Ch(t, i)>>,
                    <<<<>>, "">>, Upto(Len(t)))
  IN Append(r[1], r[2])
PathText(p) == FoldLeft(LAMBDA acc, x : acc \o "/" \o x, "", p)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
FileAt(fs, p) == LET at == {i \in 1..Len(fs.f) : fs.f[i].p = p} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE

(***************************************************************************)
(* Resolution from directory base: <<"dir", p>>, <<"file", p>>,             *)
(* <<"fileslash", p>> (a file written like a directory), <<"new", p>>       *)
(* (absent, in an existing directory), <<"newdir", p>> (absent and written  *)
(* like a directory), <<"no", error>>, or <<"?">> outside /w.               *)
(***************************************************************************)
RECURSIVE Walk(_, _, _, _)
Walk(fs, cur, ns, i) ==
  IF i > Len(ns) THEN <<"dir", cur>>
  ELSE LET x == ns[i]
           q == Append(cur, x)
           last == i = Len(ns)
           rest == {j \in (i + 1)..Len(ns) : ns[j] # ""} IN
    IF x \in {"", "."} THEN Walk(fs, cur, ns, i + 1)
    ELSE IF x = ".." THEN (IF Len(cur) <= 1 THEN <<"?">> ELSE Walk(fs, Parent(cur), ns, i + 1))
    ELSE IF ByteLen(x) > 255 THEN (IF ~last /\ rest = {} THEN <<"?">> ELSE <<"no", "Entity name is too long">>)
    ELSE IF q \in fs.d THEN Walk(fs, q, ns, i + 1)
    ELSE IF FileAt(fs, q) > 0 THEN (IF last THEN <<"file", q>> ELSE IF rest = {} THEN <<"fileslash", q>>
                                 ELSE <<"no", "Entity is not a directory">>)
    ELSE IF last THEN <<"new", q>>
    ELSE IF rest = {} THEN <<"newdir", q>>
    ELSE <<"no", "File or folder doesn't exist">>
Absolute(t) == Len(t) > 0 /\ Ch(t, 1) = "/"
HasNul(t) == \E i \in 1..Len(t) : CodeOf[Ch(t, i)] = 0
Resolve(fs, base, t) ==
  IF HasNul(t) \/ Len(t) > 900 THEN <<"?">>
  ELSE IF t = "" THEN <<"no", "File or folder doesn't exist">>
  ELSE LET ns == Names(t) IN
    IF ~Absolute(t) THEN Walk(fs, base, ns, 1)
    ELSE LET at == {i \in 1..Len(ns) : ns[i] \notin {"", "."}}      \* absolute: must lead through /w
             k == CHOOSE i \in at : \A j \in at : i <= j
         IN IF at = {} THEN <<"?">>
            ELSE IF ns[k] # "w" THEN <<"?">>
            ELSE Walk(fs, <<"w">>, ns, k + 1)

\* entries of a directory, in some order
LastOf(p) == p[Len(p)]
DirItems(fs, p) ==
  <<".", "..">>
  \o FoldLeft(LAMBDA acc, q : Append(acc, LastOf(q)), <<>>, SetToSeq({q \in fs.d : Parent(q) = p}))
  \o FoldLeft(LAMBDA acc, x : IF Parent(x.p) = p THEN Append(acc, LastOf(x.p)) ELSE acc, <<>>, fs.f)

\* opening a file to write: keep says whether what it holds stays
Truncated(fs, i, keep) ==
  LET x == fs.f[i] IN
  [fs EXCEPT !.f[i] = [x EXCEPT !.w = @ + 1,
     !.k = IF x.w > 0 THEN "?" ELSE IF keep THEN (IF x.k = "script" THEN "?" ELSE x.k) ELSE "data",
     !.b = IF keep THEN @ ELSE <<>>]]
Created(fs, p) ==
  [fs EXCEPT !.f = Append(@, [p |-> p, b |-> <<>>, k |-> "data", w |-> 1, c |-> 0]), !.v = @ + 1]
=============================================================================
