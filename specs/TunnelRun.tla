------------------------------ MODULE TunnelRun ------------------------------
(***************************************************************************)
(* U05.  A test run over a tunnel: the tunnel is opened, the run is        *)
(* triggered and polled until it has ended, the locks on the tunnel are    *)
(* waited for, then whatever the caller still wants it for; then, or on    *)
(* any failure, the tunnel is closed.  Time is in units of the polling     *)
(* interval (5 s).                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Urls,       \* "port", "http", "https" (default ports), "path", "notUrl", "noPort"
          Companions, \* "none", "zip", "zipFails", "empty"
          Keeps,      \* whether the caller keeps the tunnel open: "no", "yes"
          Going, Ends,\* the statuses of a run under way, and of one that has ended
          Infos,      \* what is known of the tunnel: "full", "noUrl", "noUser", "noPassword"
          MaxOpen,    \* unanswered polls
          MaxTick,    \* intervals that pass one by one
          Stays,      \* how many intervals may pass with the same answer
          Late        \* whether answers to polls that are no longer needed come

VARIABLES cfg, phase, \* "tunnel", "trigger", "run", "lock", "keep", "ok", "failed"
          tunnel,     \* "none", "open", "closed"
          polls, locks,
          w,          \* 0, or one more than the intervals since the run was first seen to fail to execute
          kept,       \* the caller's promise: "no", "pending", "done", "broken"
          res, why,   \* the outcome
          t, act
vars == <<cfg, phase, tunnel, polls, locks, w, kept, res, why, t, act>>
View == <<cfg, phase, tunnel, polls, locks, w, kept, res, why, t>>
Rec == [cfg |-> cfg, phase |-> phase, tunnel |-> tunnel, polls |-> polls, locks |-> locks, w |-> w, kept |-> kept, res |-> res, why |-> why, t |-> t]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Patience == 60 \* five minutes
Over == {"ok", "failed"}
Init == /\ cfg \in [url : Urls, comp : Companions, keep : Keeps]
        /\ LET bad == CASE cfg.url \in {"notUrl", "noPort"} -> "url" [] cfg.comp \in {"zipFails", "empty"} -> cfg.comp [] OTHER -> "" IN
             /\ phase = (IF bad = "" THEN "tunnel" ELSE "failed") /\ why = bad
        /\ tunnel = "none" /\ polls = 0 /\ locks = 0 /\ w = 0 /\ res = "" /\ t = 0 /\ act = [n |-> "init"]
        /\ kept = IF cfg.keep = "yes" THEN "pending" ELSE "no"

(* every failure ends it all *)
Fails(reason) == phase' = "failed" /\ why' = reason /\ tunnel' = (IF tunnel = "open" THEN "closed" ELSE tunnel) /\ res' = res
Succeeds == phase' = "ok" /\ tunnel' = "closed" /\ UNCHANGED <<why>>

(* the tunnel is there, or cannot be opened *)
Tunnel(info) ==
  /\ phase = "tunnel" /\ act' = [n |-> "tunnel", info |-> info] /\ UNCHANGED <<cfg, polls, locks, w, kept, t, res>>
  /\ IF info = "refused" THEN phase' = "failed" /\ why' = "refused" /\ tunnel' = "none"
     ELSE IF info = "full" THEN phase' = "trigger" /\ tunnel' = "open" /\ why' = ""
     ELSE phase' = "failed" /\ why' = "info" /\ tunnel' = "closed"
Trigger(how) ==
  /\ phase = "trigger" /\ act' = [n |-> "trigger", how |-> how] /\ UNCHANGED <<cfg, polls, locks, w, kept, t>>
  /\ IF how = "run" THEN phase' = "run" /\ UNCHANGED <<tunnel, res, why>> ELSE Fails(how)

Completes(status) == phase' = "lock" /\ res' = status /\ locks' = 1 /\ UNCHANGED <<tunnel, why>>
(* a poll is answered *)
Polled(status) ==
  /\ ~(status = "ExecutionError" /\ w = Patience + 1) \* after five minutes to the millisecond: either will do
  /\ phase = "run" /\ polls > 0 /\ polls' = polls - 1 /\ act' = [n |-> "polled", status |-> status] /\ UNCHANGED <<cfg, kept, t>>
  /\ IF status = "broken" THEN Fails("poll") /\ UNCHANGED <<w, locks>>
     ELSE IF status \in Going THEN w' = 0 /\ UNCHANGED <<phase, tunnel, res, why, locks>>
     ELSE IF status = "ExecutionError" /\ w <= Patience THEN w' = (IF w = 0 THEN 1 ELSE w) /\ UNCHANGED <<phase, tunnel, res, why, locks>>
     ELSE Completes(status) /\ w' = w
(* is the tunnel still locked? *)
Unlocks == IF kept \in {"no", "done"} THEN Succeeds ELSE IF kept = "broken" THEN Fails("keep") ELSE phase' = "keep" /\ UNCHANGED <<tunnel, why>>
Locked(how) ==
  /\ phase = "lock" /\ locks > 0 /\ act' = [n |-> "locked", how |-> how] /\ UNCHANGED <<cfg, polls, w, kept, t, res>>
  /\ IF how = "yes" THEN locks' = locks - 1 /\ UNCHANGED <<phase, tunnel, why>>
     ELSE locks' = locks - 1 /\ IF how = "no" THEN Unlocks ELSE Fails("lock")
(* the interval is over.  The first question about locks is asked at once, the others regularly once it is answered. *)
Tick ==
  /\ phase \in {"run", "lock", "keep"} /\ t < MaxTick /\ t' = t + 1 /\ act' = [n |-> "tick"]
  /\ polls' = (IF phase = "run" THEN polls + 1 ELSE polls) /\ polls' <= MaxOpen
  /\ w' = (IF phase = "run" /\ w > 0 THEN w + 1 ELSE w)
  /\ locks' = locks /\ phase # "lock" /\ UNCHANGED <<cfg, phase, tunnel, kept, res, why>>
(* in the lock phase *)
LockTick ==
  /\ phase = "lock" /\ locks = 0 /\ t < MaxTick /\ t' = t + 1 /\ locks' = 1 /\ act' = [n |-> "tick"]
  /\ UNCHANGED <<cfg, phase, tunnel, polls, w, kept, res, why>>
(* n intervals pass, each poll being answered as the last one *)
Stay(n) ==
  /\ phase = "run" /\ polls = 0 /\ w > 0 /\ w + n <= Patience /\ w' = w + n /\ act' = [n |-> "stay", for |-> n]
  /\ UNCHANGED <<cfg, phase, tunnel, polls, locks, kept, res, why, t>>
(* the caller needs the tunnel no longer *)
Keep(how) ==
  /\ kept = "pending" /\ phase \notin Over /\ phase \notin {"tunnel"} /\ kept' = how /\ act' = [n |-> "keep", how |-> how] /\ UNCHANGED <<cfg, polls, locks, w, t>>
  /\ IF phase = "keep" THEN (IF how = "done" THEN Succeeds /\ UNCHANGED res ELSE Fails("keep")) ELSE UNCHANGED <<phase, tunnel, res, why>>
(* an answer that is no longer needed *)
LatePoll(status) ==
  /\ Late /\ phase \notin {"run", "trigger", "tunnel"} /\ polls > 0 /\ polls' = polls - 1 /\ act' = [n |-> "polled", status |-> status]
  /\ UNCHANGED <<cfg, phase, tunnel, locks, w, kept, res, why, t>>

Next == \/ \E i \in Infos : Tunnel(i) \/ \E h \in {"run", "noRun", "message", "broken"} : Trigger(h)
        \/ \E s \in Going \cup Ends \cup {"ExecutionError", "broken"} : Polled(s) \/ LatePoll(s)
        \/ \E h \in {"yes", "no", "broken"} : Locked(h)
        \/ Tick \/ LockTick \/ \E n \in Stays : Stay(n)
        \/ \E h \in {"done", "broken"} : Keep(h)
Spec == Init /\ [][Next]_vars

OpenWhileNeeded == phase \in {"trigger", "run", "lock", "keep"} => tunnel = "open"
ClosedInTheEnd == phase \in Over => tunnel # "open"
OnlyAFinalStatus == phase = "ok" => res \in Ends \cup {"ExecutionError"}
PatientWithErrors == res = "ExecutionError" => w > Patience
ReasonForFailure == (phase = "failed") = (why # "")
EndIsFinal == [][~(phase \in Over)]_phase
NeverReopened == [][tunnel' = "open" => tunnel = "none"]_tunnel
=============================================================================
