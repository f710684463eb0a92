-------------------------- MODULE EdgeReplayFetch --------------------------
(***************************************************************************)
(* E04.  Outbound fetch calls made by requests that are replayed, recorded *)
(* or neither, interleaved in one process: what is asked of the replay     *)
(* sidecar, what reaches the real network and what the app gets.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ctxs,     \* contexts that make calls: "R1", "R2", "rec", "off", "plain"
          Shapes,   \* shapes of the call
          Marks,    \* values of the pass-through mark
          Answers,  \* what the sidecar answers to a lookup
          MaxCalls, MaxLen

VARIABLES calls,    \* [ctx, shape, mark, st, got]
          over,     \* contexts whose response was returned already
          len, act
vars == <<calls, over, len, act>>
Rec == [calls |-> calls, over |-> over]
View == <<calls, over>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Replayed(c) == c \in {"R1", "R2"}
OwnSidecar(s) == s = "toSidecar"
Hermetic(c) == Replayed(c.ctx) /\ c.mark # "true" /\ ~OwnSidecar(c.shape)

(* what the app gets for each answer *)
Served == {"mock200", "mock404", "mock500", "mock204", "mock304", "mock205", "mock201", "mock302", "mock599", "mockFraming", "mockBadHeader", "mockEmpty", "mockNoBody"}
Stalls == {"stallBody"}

Init == calls = <<>> /\ over = [c \in {"R1", "R2", "rec", "off"} |-> FALSE] /\ len = 0 /\ act = [n |-> "init"]
Step(a) == len < MaxLen /\ len' = len + 1 /\ act' = a

Call(c, s, m) ==
  /\ Len(calls) < MaxCalls /\ (s = "bare" => m = "absent")
  /\ Step([n |-> "call", ctx |-> c, shape |-> s, mark |-> m])
  /\ LET k == [ctx |-> c, shape |-> s, mark |-> m, st |-> "none", got |-> "none"]
     IN calls' = Append(calls, [k EXCEPT !.st = IF Hermetic(k) THEN "lookup" ELSE "live"])
  /\ UNCHANGED over
Answer(i, a) ==
  /\ calls[i].st = "lookup" /\ Step([n |-> "answer", i |-> i, a |-> a])
  /\ calls' = [calls EXCEPT ![i].st = IF a \in Stalls THEN "stalled" ELSE "done",
                            ![i].got = IF a \in Served THEN a ELSE IF a \in Stalls THEN "none" ELSE "failed"]
  /\ UNCHANGED over
(* five seconds without an answer *)
Timeout ==
  /\ \E i \in DOMAIN calls : calls[i].st \in {"lookup", "stalled"}
  /\ Step([n |-> "timeout"])
  /\ calls' = [i \in DOMAIN calls |-> IF calls[i].st \in {"lookup", "stalled"} THEN [calls[i] EXCEPT !.st = "done", !.got = "failed"] ELSE calls[i]]
  /\ UNCHANGED over
Live(i, ok) ==
  /\ calls[i].st = "live" /\ Step([n |-> "live", i |-> i, ok |-> ok])
  /\ calls' = [calls EXCEPT ![i].st = "done", ![i].got = IF ok THEN "real" ELSE "realError"]
  /\ UNCHANGED over
(* the context's response is returned; what it left running goes on *)
Return(c) ==
  /\ c \in DOMAIN over /\ ~over[c] /\ Step([n |-> "return", ctx |-> c])
  /\ over' = [over EXCEPT ![c] = TRUE] /\ UNCHANGED calls

Next == \/ \E c \in Ctxs, s \in Shapes, m \in Marks : Call(c, s, m)
        \/ \E i \in DOMAIN calls : (\E a \in Answers : Answer(i, a)) \/ \E ok \in BOOLEAN : Live(i, ok)
        \/ Timeout
        \/ \E c \in Ctxs : Return(c)
Spec == Init /\ [][Next]_vars

Sealed == \A i \in DOMAIN calls : calls[i].st = "live" \/ calls[i].got \in {"real", "realError"} => ~Hermetic(calls[i])
Unaffected == \A i \in DOMAIN calls : ~Hermetic(calls[i]) => calls[i].got \in {"none", "real", "realError"}
NothingInvented == \A i \in DOMAIN calls : calls[i].got \in Served => Hermetic(calls[i])
=============================================================================
