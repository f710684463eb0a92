----------------------------- MODULE EdgeBody -----------------------------
(***************************************************************************)
(* E07.  A body that arrives in pieces while it is captured: what is       *)
(* captured of it, and that the app's own copy is complete.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Vias, Contents, Sizes, Cap, MaxPieces, MaxLen

VARIABLES via, content,
          got,      \* bytes that have arrived
          pieces,
          clock,    \* seconds since the body was first read
          body,     \* "open", "ended", "failed"
          cap,      \* "reading", "over" (more than the cap has come), "whole", "part", "failed", "lost" (over, then the body failed)
          capLen,   \* bytes captured
          len, act
vars == <<via, content, got, pieces, clock, body, cap, capLen, len, act>>
Rec == [via |-> via, content |-> content, got |-> got, pieces |-> pieces, clock |-> clock, body |-> body, cap |-> cap, capLen |-> capLen]
View == <<via, content, got, pieces, clock, body, cap, capLen>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ via \in Vias /\ content \in Contents /\ got = 0 /\ pieces = 0 /\ clock = 0 /\ body = "open" /\ cap = "reading" /\ capLen = 0 /\ len = 0 /\ act = [n |-> "init"]
Step(a) == len < MaxLen /\ len' = len + 1 /\ act' = a /\ UNCHANGED <<via, content>>

Min(a, b) == IF a < b THEN a ELSE b
(* at the cap the reader still waits for the end: only a longer body is truncated; a reader
   that knows the body is longer may report it at once, or with the next piece *)
Push(k) ==
  /\ pieces < MaxPieces /\ body = "open" /\ (k = 0 => got # Cap) /\ Step([n |-> "push", size |-> k])
  /\ got' = got + k /\ pieces' = pieces + 1 /\ UNCHANGED <<clock, body>>
  /\ IF cap # "reading" THEN UNCHANGED <<cap, capLen>>
     ELSE /\ capLen' = Min(got', Cap) /\ cap' = IF got' > Cap THEN "over" ELSE "reading"
End ==
  /\ body = "open" /\ Step([n |-> "end"]) /\ body' = "ended"
  /\ cap' = (CASE cap = "reading" -> "whole" [] cap = "over" -> "part" [] OTHER -> cap) /\ UNCHANGED <<got, pieces, clock, capLen>>
Fail ==
  /\ body = "open" /\ Step([n |-> "fail"]) /\ body' = "failed"
  /\ cap' = (CASE cap = "reading" -> "failed" [] cap = "over" -> "lost" [] OTHER -> cap) /\ UNCHANGED <<got, pieces, clock, capLen>>
(* time passes; after ten seconds the capture ends with what there is *)
Wait(s) ==
  /\ body = "open" /\ clock < 10 /\ Step([n |-> "wait", s |-> s]) /\ clock' = Min(10, clock + s)
  /\ cap' = (IF cap \in {"reading", "over"} /\ clock' = 10 THEN "part" ELSE cap) /\ UNCHANGED <<got, pieces, body, capLen>>
Next == (\E k \in Sizes : Push(k)) \/ End \/ Fail \/ \E s \in {4, 9} : Wait(s)
Spec == Init /\ [][Next]_vars

Bounded == capLen <= Cap /\ capLen <= got
Truthful == cap = "whole" => body = "ended" /\ capLen = got
Marked == cap \in {"part", "over", "lost"} => got > Cap \/ clock = 10
=============================================================================
