------------------------------ MODULE JsonCache ------------------------------
(***************************************************************************)
(* D03.  A cached JSON document (a session, its data, a replay), between   *)
(* callers that may crash.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Items, Answers, NC, MaxCalls, MaxFaults

Callers == 1..NC
VARIABLES kind, file, ph, item, res, calls, faults, act
vars == <<kind, file, ph, item, res, calls, faults, act>>
View == <<kind, file, ph, item, res, calls, faults>>
Rec == [kind |-> kind, file |-> file, ph |-> ph, item |-> item, res |-> res, calls |-> calls, faults |-> faults]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ kind \in Kinds /\ file = [i \in Items |-> "none"] /\ ph = [c \in Callers |-> "idle"] /\ item = [c \in Callers |-> "none"] /\ res = [c \in Callers |-> "none"]
        /\ calls = 0 /\ faults = 0 /\ act = [n |-> "init"]
Call(c, i) == /\ ph[c] = "idle" /\ calls < MaxCalls /\ \A d \in Callers : d < c => ph[d] # "idle"
              /\ ph' = [ph EXCEPT ![c] = "wait"] /\ item' = [item EXCEPT ![c] = i] /\ res' = [res EXCEPT ![c] = "none"] /\ calls' = calls + 1
              /\ act' = [n |-> "call", c |-> c, i |-> i] /\ UNCHANGED <<kind, file, faults>>
Ends(c, r) == ph' = [ph EXCEPT ![c] = "idle"] /\ res' = [res EXCEPT ![c] = r]
Free(i) == \A d \in Callers : ~(ph[d] = "api" /\ item[d] = i)
Grant(c) == /\ ph[c] = "wait" /\ Free(item[c]) /\ act' = [n |-> "grant", c |-> c] /\ UNCHANGED <<kind, file, item, calls, faults>>
            /\ IF file[item[c]] = "good" THEN Ends(c, "ok") ELSE ph' = [ph EXCEPT ![c] = "api"] /\ UNCHANGED res
Answer(c, k) == /\ ph[c] = "api" /\ act' = [n |-> "answer", c |-> c, k |-> k] /\ UNCHANGED <<kind, item, calls>>
                /\ (k = "ok" \/ faults < MaxFaults) /\ faults' = faults + (IF k = "ok" THEN 0 ELSE 1)
                /\ CASE k = "ok" -> file' = [file EXCEPT ![item[c]] = "good"] /\ Ends(c, "ok")
                     [] k = "missing" -> UNCHANGED file /\ Ends(c, "exit")
                     [] k = "refused" -> UNCHANGED file /\ Ends(c, "error")
                     [] k = "crash" -> UNCHANGED file /\ Ends(c, "crashed")
                     [] k = "writing" -> file' = [file EXCEPT ![item[c]] = "cut"] /\ Ends(c, "crashed")
Next == \E c \in Callers : Grant(c) \/ (\E i \in Items : Call(c, i)) \/ \E k \in Answers : Answer(c, k)
Spec == Init /\ [][Next]_vars
OneAtATime == \A c, d \in Callers : c # d /\ ph[c] = "api" /\ ph[d] = "api" => item[c] # item[d]
SuccessIsThere == [][\A c \in Callers : res'[c] = "ok" /\ res[c] # "ok" => file'[item[c]] = "good"]_vars
Kept == [][\A i \in Items : file[i] = "good" => file'[i] = "good"]_vars
=============================================================================
