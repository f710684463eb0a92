----------------------------- MODULE EdgeCalls -----------------------------
(***************************************************************************)
(* E08.  Calls that the app makes on its bindings, key-value namespaces    *)
(* and database client, between requests that are recorded, a replay and   *)
(* code outside any request.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Sides,     \* how the sidecar is configured: "url", "binding", "custom", "bare"
          Makers,    \* who calls: "r1", "r2" (recorded requests), "replay", "outside"
          Resources, \* what is called
          MaxCalls, MaxLen

VARIABLES side,
          reqs,  \* per maker "none", "open", "over"
          calls, \* sequence of [who, res, st]
          len, act
vars == <<side, reqs, calls, len, act>>
Rec == [side |-> side, reqs |-> reqs, calls |-> calls]
View == <<side, reqs, calls>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Requests == Makers \cap {"r1", "r2", "replay"}
(* of these, every call is recorded; "skipped", "assets", "sidecar" and what cannot be instrumented is not *)
Recorded(c) == c.who \in {"r1", "r2"} /\ c.res \in {"service", "second", "alias", "stub", "kv", "kvsub", "pg"}

Init == side \in Sides /\ reqs = [r \in Requests |-> "none"] /\ calls = <<>> /\ len = 0 /\ act = [n |-> "init"]
Step(a) == len < MaxLen /\ len' = len + 1 /\ act' = a /\ UNCHANGED side
Start(r) == Step([n |-> "start", who |-> r]) /\ reqs[r] = "none" /\ reqs' = [reqs EXCEPT ![r] = "open"] /\ UNCHANGED calls
End(r) == Step([n |-> "end", who |-> r]) /\ reqs[r] = "open" /\ reqs' = [reqs EXCEPT ![r] = "over"] /\ UNCHANGED calls
(* also by work that goes on when the response has been returned *)
Call(w, x) ==
  /\ Len(calls) < MaxCalls /\ (w \in Requests => reqs[w] # "none") /\ (x = "sidecar" => side \notin {"url", "bare"})
  /\ Step([n |-> "call", who |-> w, res |-> x]) /\ calls' = Append(calls, [who |-> w, res |-> x, st |-> "pending"]) /\ UNCHANGED reqs
Settle(i, k) == i \in DOMAIN calls /\ calls[i].st = "pending" /\ Step([n |-> "settle", i |-> i, k |-> k]) /\ calls' = [calls EXCEPT ![i].st = k] /\ UNCHANGED reqs
Next == (\E r \in Requests : Start(r) \/ End(r)) \/ (\E w \in Makers, x \in Resources : Call(w, x)) \/ \E i \in 1..MaxCalls, k \in {"ok", "error"} : Settle(i, k)
Spec == Init /\ [][Next]_vars

(* what has been reported once a request is over: each of its settled calls, once *)
Reported(r) == {i \in DOMAIN calls : calls[i].who = r /\ Recorded(calls[i]) /\ calls[i].st # "pending"}
OthersAreNot == \A i \in DOMAIN calls : calls[i].who \in {"outside", "replay"} => \A r \in Requests : i \notin Reported(r)
OneRequestEach == \A r, q \in Requests : r # q => Reported(r) \cap Reported(q) = {}
OutcomesLast == [][\A i \in DOMAIN calls : calls[i].st # "pending" => calls'[i] = calls[i]]_vars
=============================================================================
