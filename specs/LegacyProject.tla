---------------------------- MODULE LegacyProject ----------------------------
(***************************************************************************)
(* A04.  The project that used to be selected in a local file is carried   *)
(* over to the account, once.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Files, Defaults, Tokens, MaxRuns, MaxOther, Faults
VARIABLES file,    \* "none", "project", "blank", "corrupt"
          stored,  \* the account's default: "none", "other", "legacy"
          phase,   \* "idle", "ask", "set"
          found,   \* what the account answered
          token,   \* the kind of credential of the run under way
          runs, others, act
vars == <<file, stored, phase, found, token, runs, others, act>>
View == <<file, stored, phase, found, token, runs, others>>
Rec == [file |-> file, stored |-> stored, phase |-> phase, found |-> found, token |-> token, runs |-> runs, others |-> others]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Init == file \in Files /\ stored \in Defaults /\ phase = "idle" /\ found = "none" /\ token = "none" /\ runs = 0 /\ others = 0 /\ act = [n |-> "init"]
Run(t) == /\ phase = "idle" /\ runs < MaxRuns /\ runs' = runs + 1 /\ token' = t /\ act' = [n |-> "run", token |-> t] /\ UNCHANGED <<stored, found, others>>
          /\ IF t # "login" \/ file = "none" THEN UNCHANGED <<file, phase>>
             ELSE IF file = "project" THEN phase' = "ask" /\ UNCHANGED file
             ELSE file' = "none" /\ UNCHANGED phase
Asked == /\ phase = "ask" /\ found' = stored /\ act' = [n |-> "asked"] /\ UNCHANGED <<stored, token, runs, others>>
         /\ IF stored = "none" THEN phase' = "set" /\ UNCHANGED file ELSE phase' = "idle" /\ file' = "none"
Set == phase = "set" /\ stored' = "legacy" /\ file' = "none" /\ phase' = "idle" /\ act' = [n |-> "set"] /\ UNCHANGED <<found, token, runs, others>>
(* lost: whether the account took the setting although its answer was lost *)
Fault(f, lost) == /\ phase \in {"ask", "set"} /\ phase' = "idle" /\ (lost => phase = "set") /\ stored' = (IF lost THEN "legacy" ELSE stored) /\ act' = [n |-> "fault", kind |-> f] /\ UNCHANGED <<file, found, token, runs, others>>
OtherSets == /\ others < MaxOther /\ others' = others + 1 /\ phase # "set" /\ stored' = "other" /\ act' = [n |-> "other"] /\ UNCHANGED <<file, phase, found, token, runs>>
Next == (\E t \in Tokens : Run(t)) \/ Asked \/ Set \/ (\E f \in Faults, l \in BOOLEAN : Fault(f, l)) \/ OtherSets
Spec == Init /\ [][Next]_vars
(* the selection is given up only once the account has a default *)
NotLost == [][(file = "project" /\ file' # file) => stored' # "none"]_vars
(* a default that the account reported is not overwritten *)
Respected == [][(stored = "other" /\ stored' = "legacy") => found = "none"]_vars
=============================================================================
