--------------------------- MODULE WorkspaceFiles ---------------------------
(***************************************************************************)
(* W02.  The files a debug workspace is made from, the state each of them  *)
(* arrives in, and what is left of it once the workspace is generated.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Files, States, MaxFiles, MaxRuns

VARIABLES files, \* what was put there
          left,  \* what is there
          runs, act
vars == <<files, left, runs, act>>
View == <<files, left, runs>>
Rec == [files |-> files, left |-> left, runs |-> runs]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Documents == {"cookies", "params", "timeline", "snapshots", "session"}
Lines == {"ndjson"}
Logs == {"logs", "concise", "lognd"}
StatesOf(f) == CASE f \in Documents -> {"good", "cut", "empty", "null"} [] f \in Lines -> {"good", "cutline", "blank"} [] f = "lognd" -> {"good", "cutline", "nullline", "blank"} [] OTHER -> {"good", "clean"}
Fs == Files
Init == files = [f \in Fs |-> "none"] /\ left = files /\ runs = 0 /\ act = [n |-> "init"]
Put(f, s) == /\ runs = 0 /\ files[f] = "none" /\ Cardinality({g \in Fs : files[g] # "none"}) < MaxFiles
             /\ s \in StatesOf(f) \cap States /\ files' = [files EXCEPT ![f] = s] /\ left' = files' /\ UNCHANGED runs
             /\ act' = [n |-> "put", f |-> f, s |-> s]
Becomes(f, s) == CASE s = "none" -> "none"
                   [] f \in Documents /\ s \in {"cut", "empty"} -> "none"
                   [] s \in {"null", "clean"} -> s
                   [] OTHER -> "redacted"
Generate == /\ runs < MaxRuns /\ runs' = runs + 1 /\ act' = [n |-> "generate"]
            /\ left' = [f \in Fs |-> IF f = "ndjson" /\ left[f] = "none" /\ "timeline" \in Fs /\ left["timeline"] \in {"good", "redacted"} THEN "redacted" \* made from the timeline
                                 ELSE IF left[f] = "redacted" THEN "redacted" ELSE Becomes(f, left[f])] /\ UNCHANGED files
Next == Generate \/ \E f \in Fs, s \in States : Put(f, s)
Spec == Init /\ [][Next]_vars

NothingLeft == runs > 0 => \A f \in Fs : left[f] \in {"none", "redacted", "null", "clean"}
GoodIsKept == runs > 0 => \A f \in Fs : files[f] = "good" => left[f] = "redacted"
OnceIsEnough == [][runs > 0 => left' = left]_vars
=============================================================================
