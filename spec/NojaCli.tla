------------------------------- MODULE NojaCli -------------------------------
(***************************************************************************)
(* The command line of the noja tool.  Arguments are read one at a time;    *)
(* options set what to do, the first argument that is not an option names   *)
(* the program and ends the reading.  TLC chooses every command line over   *)
(* the tokens of the scenario up to its length and emits what the tool has  *)
(* to do for it.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
CONSTANTS InFile, OutFile
In == JsonDeserialize(InFile)       \* [toks |-> <<[t, dash, num]>>, max |-> n]: text, begins with "-", value when a number

VARIABLES argv, want, o, st
vars == <<argv, want, o, st>>
Toks == TLCEval(In).toks

Init == /\ argv = <<>>
        /\ want = ""          \* the option whose value comes next
        /\ o = [mode |-> "run", inline |-> FALSE, profile |-> FALSE, out |-> "", heap |-> -1, input |-> 0, msg |-> ""]
        /\ st = "args"

Opt(t) == CASE t \in {"-h", "--help"} -> "help" [] t \in {"-i", "--inline"} -> "inline"
            [] t \in {"-a", "--assembly"} -> "assembly" [] t = "--diagram-ast" -> "diagram"
            [] t \in {"-p", "--profile"} -> "profile" [] t \in {"-o", "--output"} -> "output"
            [] t \in {"-H", "--heap"} -> "heap" [] OTHER -> ""
Fail(m) == o' = [o EXCEPT !.msg = m] /\ st' = "usage"
Missing(w) == IF Opt(w) = "output" THEN "Missing file path after " \o w \o " option" ELSE "Missing byte count after " \o w \o " option"
Read(i) ==
  LET x == Toks[i] IN
  /\ argv' = Append(argv, i)
  /\ want' = IF want = "" /\ Opt(x.t) \in {"output", "heap"} THEN x.t ELSE ""
  /\ IF want # "" THEN
       IF x.dash THEN Fail(Missing(want))
       ELSE IF Opt(want) = "output" THEN o' = [o EXCEPT !.out = x.t] /\ UNCHANGED st
       ELSE IF x.num = 0 THEN Fail("Invalid heap size")
       ELSE o' = [o EXCEPT !.heap = x.num] /\ UNCHANGED st
     ELSE LET k == Opt(x.t) IN
       CASE k \in {"help", "assembly", "diagram"} -> o' = [o EXCEPT !.mode = k] /\ UNCHANGED st
         [] k = "inline" -> o' = [o EXCEPT !.inline = TRUE] /\ UNCHANGED st
         [] k = "profile" -> o' = [o EXCEPT !.profile = TRUE] /\ UNCHANGED st
         [] k \in {"output", "heap"} -> UNCHANGED <<o, st>>
         [] OTHER -> o' = [o EXCEPT !.input = i] /\ st' = "rest"
Rest(i) == argv' = Append(argv, i) /\ UNCHANGED <<want, o, st>>      \* what follows the program is not read

More == /\ Len(argv) < In.max
        /\ IF st = "args" THEN \E i \in 1..Len(Toks) : Read(i)
           ELSE st \in {"rest", "usage"} /\ \E i \in 1..Len(Toks) : Rest(i)
Act == IF st = "usage" THEN "usage"
       ELSE IF want # "" THEN "usage"
       ELSE IF o.mode = "help" THEN "help"
       ELSE IF o.input = 0 THEN "noinput"
       ELSE o.mode
End == /\ st \in {"args", "rest", "usage"}
       /\ CSVWrite("%1$s", <<ToJson([argv |-> argv, act |-> Act, msg |-> IF st # "usage" /\ want # "" THEN Missing(want) ELSE o.msg,
                                     inline |-> o.inline, profile |-> o.profile, out |-> o.out, heap |-> o.heap, input |-> o.input])>>, OutFile)
       /\ st' = "end"
       /\ UNCHANGED <<argv, want, o>>
Next == More \/ End
Spec == Init /\ [][Next]_vars

\* a program is run only when one was named, and never after a usage error
Sane == /\ st = "rest" => o.input > 0 /\ want = ""
        /\ st = "usage" => o.msg # ""
=============================================================================
