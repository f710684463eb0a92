----------------------------- MODULE TunnelOpen -----------------------------
(***************************************************************************)
(* T02.  Opening a tunnel: asking the tunnel server for one, again and     *)
(* again while it cannot be reached, starting the workers that connect to  *)
(* it, and closing at any point.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Counts,    \* numbers of connections asked for; 0: not said
          Answers,   \* what becomes of a request for a tunnel
          MaxAsks, MaxExits

VARIABLES count, ph, asks, told, workers, closed, exits, errors, act
vars == <<count, ph, asks, told, workers, closed, exits, errors, act>>
View == <<count, ph, asks, told, workers, closed, exits, errors>>
Rec == [count |-> count, ph |-> ph, asks |-> asks, told |-> told, workers |-> workers, closed |-> closed, errors |-> errors]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ count \in Counts /\ ph = "asking" /\ asks = 1 /\ told = "nothing" /\ workers = "none" /\ closed = FALSE /\ exits = 0 /\ errors = 0 /\ act = [n |-> "init"]
Unreachable == {"refused", "reset", "badgateway"} \* the last: the answer of something else on the way, which is no JSON
Denied == {"401", "403", "401text", "403text"}
Answer(k) ==
  /\ ph = "asking" /\ act' = [n |-> "answer", k |-> k] /\ UNCHANGED <<count, asks, closed, exits, errors>>
  /\ CASE closed /\ k \notin Denied -> (IF k \in Unreachable THEN ph' = "waiting" /\ UNCHANGED <<told, workers>> ELSE ph' = "over" /\ told' = "closed" /\ UNCHANGED workers)
       [] k \in Denied -> ph' = "over" /\ told' = "denied" /\ UNCHANGED workers
       [] k \in {"500", "404"} -> ph' = "over" /\ told' = "failed" /\ UNCHANGED workers
       [] k \in Unreachable -> ph' = "waiting" /\ UNCHANGED <<told, workers>>
       [] k = "ok" -> ph' = "open" /\ told' = "open" /\ workers' = "running"
Again ==
  /\ ph = "waiting" /\ act' = [n |-> "tick"] /\ UNCHANGED <<count, workers, closed, exits, errors>>
  /\ IF closed THEN ph' = "over" /\ told' = "closed" /\ UNCHANGED asks ELSE ph' = "asking" /\ asks < MaxAsks /\ asks' = asks + 1 /\ UNCHANGED told
Close == /\ ~closed /\ closed' = TRUE /\ ph # "over" /\ act' = [n |-> "close"] /\ workers' = (IF workers = "running" THEN "killed" ELSE workers) /\ UNCHANGED <<count, ph, asks, told, exits, errors>>
\* a worker that stops makes for an error, unless it was meant to
Exit(k) == /\ ph = "open" /\ exits < MaxExits /\ exits' = exits + 1 /\ act' = [n |-> "exit", k |-> k] /\ errors' = (IF closed \/ k = "well" THEN errors ELSE errors + 1) /\ UNCHANGED <<count, ph, asks, told, workers, closed>>
\* time alone brings nothing about
Idle == /\ ph \in {"over", "open"} /\ exits < MaxExits /\ exits' = exits + 1 /\ act' = [n |-> "idle"] /\ UNCHANGED <<count, ph, asks, told, workers, closed, errors>>
Next == Again \/ Close \/ Idle \/ (\E k \in Answers : Answer(k)) \/ (\E k \in {"crash", "well"} : Exit(k))
Spec == Init /\ [][Next]_vars
NoneAfterClose == [][closed => asks' = asks /\ (workers' = workers)]_vars
DeniedIsFinal == [][told = "denied" => asks' = asks /\ told' = told]_vars
Kept == [][(ph = "asking" /\ ph' = "waiting") => told' = "nothing"]_vars
=============================================================================
