---------------------------- MODULE DeviceLogin ----------------------------
(***************************************************************************)
(* A02.  Logging in by a device code.  Times are seconds.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Expires,    \* for how long the code is valid
          Intervals,  \* the asked-for interval (0: none given, so 5)
          Lats,       \* how long a request takes
          Answers, AuthFaults, MaxSlow

VARIABLES phase,      \* "discover", "authorize", "wait", "poll", "ok", "failed"
          expires, ival, left, slows,
          why,        \* what ended it
          act
vars == <<phase, expires, ival, left, slows, why, act>>
View == <<phase, expires, ival, left, slows, why>>
Rec == [phase |-> phase, expires |-> expires, ival |-> ival, left |-> left, slows |-> slows, why |-> why]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Min(a, b) == IF a < b THEN a ELSE b
Init == phase = "discover" /\ expires \in Expires /\ ival \in Intervals /\ left = 0 /\ slows = 0 /\ why = "none" /\ act = [n |-> "init"]
Discovered == phase = "discover" /\ phase' = "authorize" /\ act' = [n |-> "discovered"] /\ UNCHANGED <<expires, ival, left, slows, why>>
Authorized == /\ phase = "authorize" /\ phase' = "wait" /\ left' = expires /\ act' = [n |-> "authorized", expires |-> expires, interval |-> ival] /\ ival' = (IF ival = 0 THEN 5 ELSE ival)
              /\ UNCHANGED <<expires, slows, why>>
AuthFault(f) == /\ phase \in {"discover", "authorize"} /\ phase' = "failed" /\ why' = f /\ act' = [n |-> "fault", kind |-> f] /\ UNCHANGED <<expires, ival, left, slows>>
                /\ (f \in {"nodevice"} => phase = "discover") /\ (f \in {"missing", "badexpiry", "disabled"} => phase = "authorize")
(* polls no faster than asked for, and once more just before the end *)
Wait == /\ phase = "wait" /\ phase' = "poll" /\ left' = left - Min(ival, left) /\ act' = [n |-> "wait", s |-> Min(ival, left)] /\ UNCHANGED <<expires, ival, slows, why>>
Slow == {"slow", "slow429"}
Going == Slow \cup {"pending", "500", "503", "network", "cut", "cut200", "empty502"}
Reason(a) == CASE a = "denied" -> "denied" [] a = "expired" -> "expired" [] OTHER -> a
Answer(lat, a) ==
  /\ phase = "poll" /\ act' = [n |-> "answer", lat |-> lat, kind |-> a] /\ UNCHANGED expires
  /\ (a \in Slow => slows < MaxSlow) /\ slows' = slows + (IF a \in Slow THEN 1 ELSE 0)
  /\ left' = left - lat /\ ival' = (IF a \in Slow THEN ival + 5 ELSE ival)
  /\ IF a = "approved" THEN phase' = "ok" /\ why' = "none"
     ELSE IF a \in Going THEN IF left' <= 0 THEN phase' = "failed" /\ why' = "expired" ELSE phase' = "wait" /\ why' = why
     ELSE phase' = "failed" /\ why' = Reason(a)
Next == Discovered \/ Authorized \/ (\E f \in AuthFaults : AuthFault(f)) \/ Wait \/ (\E l \in Lats, a \in Answers : Answer(l, a))
Spec == Init /\ [][Next]_vars

NotFaster == phase = "wait" => ival >= 1
SlowsDown == [][(act'.n = "answer" /\ act'.kind \in Slow) => ival' = ival + 5]_vars
EndsOnce == [][~(phase \in {"ok", "failed"})]_phase
PollsWhileValid == [][(phase = "wait" /\ phase' = "poll") => left > 0]_vars
=============================================================================
