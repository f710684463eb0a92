---------------------------- MODULE BrowserLogin ----------------------------
(***************************************************************************)
(* A03.  A login in the browser: the callback, and the exchange of its     *)
(* code.  Time is in seconds; a callback is awaited for 120 of them.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Callbacks, Faults, Others, MaxOther, Steps
VARIABLES phase, \* "listening", "discover", "exchange", "ok", "failed"
          left, others, why, act
vars == <<phase, left, others, why, act>>
View == <<phase, left, others, why>>
Rec == [phase |-> phase, left |-> left, others |-> others, why |-> why]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Init == phase = "listening" /\ left = 120 /\ others = 0 /\ why = "none" /\ act \in [n : {"init"}, browser : BOOLEAN]
(* a callback: only one with a code and the state that was issued is accepted *)
Callback(k) == /\ phase = "listening" /\ act' = [n |-> "callback", kind |-> k] /\ UNCHANGED <<left, others>>
               /\ IF k = "good" THEN phase' = "discover" /\ why' = why ELSE phase' = "failed" /\ why' = k
(* a request for anything else changes nothing *)
Other(k) == phase = "listening" /\ others < MaxOther /\ others' = others + 1 /\ act' = [n |-> "other", kind |-> k] /\ UNCHANGED <<phase, left, why>>
Tick(s) == /\ phase = "listening" /\ s <= left /\ (left = 120 \/ s = left) /\ left' = left - s /\ act' = [n |-> "tick", s |-> s] /\ UNCHANGED others
           /\ IF left' = 0 THEN phase' = "failed" /\ why' = "timeout" ELSE UNCHANGED <<phase, why>>
Discovered == phase = "discover" /\ phase' = "exchange" /\ act' = [n |-> "discovered"] /\ UNCHANGED <<left, others, why>>
Exchanged == phase = "exchange" /\ phase' = "ok" /\ act' = [n |-> "exchanged"] /\ UNCHANGED <<left, others, why>>
Fault(f) == phase \in {"discover", "exchange"} /\ phase' = "failed" /\ why' = f /\ act' = [n |-> "fault", kind |-> f] /\ UNCHANGED <<left, others>>
Next == (\E k \in Callbacks : Callback(k)) \/ (\E k \in Others : Other(k)) \/ (\E s \in Steps : Tick(s)) \/ Discovered \/ Exchanged \/ (\E f \in Faults : Fault(f))
Spec == Init /\ [][Next]_vars
(* nothing is exchanged without a callback bound to this login *)
Bound == [][phase' = "discover" => phase = "listening" /\ act'.kind = "good" /\ left > 0]_phase
EndsOnce == [][~(phase \in {"ok", "failed"})]_phase
=============================================================================
