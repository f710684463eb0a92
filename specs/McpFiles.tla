------------------------------ MODULE McpFiles ------------------------------
(***************************************************************************)
(* K03.  The configurations of three agents are each given the product's   *)
(* server, whatever becomes of the others; and one that could not be is an *)
(* error in the end.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Good,  \* JSON files that can be merged into
          Exact, \* ... and that need not be
          Bad,   \* JSON files that cannot
          GoodToml, ExactToml, BadToml, MaxRuns

VARIABLES files, \* three of them: what they are like
          runs, result, act
vars == <<files, runs, result, act>>
View == <<files, runs, result>>
Rec == [files |-> files, runs |-> runs, result |-> result]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Jsons == Good \cup Exact \cup Bad
Tomls == GoodToml \cup ExactToml \cup BadToml
Init == files \in {<<a, b, c>> : a \in Jsons, b \in Jsons, c \in Tomls} /\ runs = 0 /\ result = "" /\ act = [n |-> "init"]
IsBad(i) == files[i] \in (IF i = 3 THEN BadToml ELSE Bad)
IsGood(i) == files[i] \in (IF i = 3 THEN GoodToml ELSE Good)
Ensure ==
  /\ runs < MaxRuns /\ runs' = runs + 1 /\ act' = [n |-> "ensure"]
  /\ files' = [i \in 1..3 |-> IF IsGood(i) THEN "merged" ELSE files[i]]
  /\ result' = (IF \E i \in 1..3 : IsBad(i) THEN "error" ELSE "ok")
Next == Ensure
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* one that fails keeps no other from being merged
Independent == runs > 0 => \A i \in 1..3 : ~IsGood(i)
BadUntouched == [][\A i \in 1..3 : IsBad(i) => files'[i] = files[i]]_vars
ErrorIffBad == runs > 0 => ((result = "error") <=> (\E i \in 1..3 : IsBad(i)))
=============================================================================
