----------------------------- MODULE AssetCache -----------------------------
(***************************************************************************)
(* D03.  A cached snippet bundle that is published again from time to      *)
(* time, between callers that may crash.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Setups, \* "plain", "preloaded", "lacking" (preloaded, but not this), "custom" (another base URL, preloaded or not), "untagged" (no etags)
          Ops,    \* "fetch", "check"
          Faults, NC, MaxCalls, MaxPublish, MaxFaults

Callers == 1..NC
VARIABLES setup, server, entry, file, ph, op, tag, res, calls, pubs, faults, act
vars == <<setup, server, entry, file, ph, op, tag, res, calls, pubs, faults, act>>
View == <<setup, server, entry, file, ph, op, tag, res, calls, pubs, faults>>
Rec == [setup |-> setup, server |-> server, entry |-> entry, file |-> file, ph |-> ph, op |-> op, tag |-> tag, res |-> res, calls |-> calls, pubs |-> pubs, faults |-> faults]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ setup \in Setups /\ server = 1 /\ entry = 0 /\ file = "none" /\ ph = [c \in Callers |-> "idle"] /\ op = [c \in Callers |-> "none"] /\ tag = [c \in Callers |-> 0] /\ res = [c \in Callers |-> "none"]
        /\ calls = 0 /\ pubs = 0 /\ faults = 0 /\ act = [n |-> "init"]
Ver(v) == IF v = 1 THEN "v1" ELSE "v2"
Tagged == setup # "untagged"
Current(t) == Tagged /\ entry = t /\ file # "none"
Ends(c, r) == ph' = [ph EXCEPT ![c] = "idle"] /\ res' = [res EXCEPT ![c] = r]
Fault(k) == k \in Faults /\ faults < MaxFaults /\ faults' = faults + 1

Publish == /\ pubs < MaxPublish /\ pubs' = pubs + 1 /\ server' = 3 - server /\ act' = [n |-> "publish"] /\ UNCHANGED <<setup, entry, file, ph, op, tag, res, calls, faults>>
Call(c, o) ==
  /\ ph[c] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ \A d \in Callers : d < c => ph[d] # "idle"
  /\ op' = [op EXCEPT ![c] = o] /\ act' = [n |-> "call", c |-> c, o |-> o] /\ UNCHANGED <<setup, server, entry, file, tag, pubs, faults>>
  /\ IF o = "fetch" /\ setup = "preloaded" THEN Ends(c, "preloaded")
     ELSE ph' = [ph EXCEPT ![c] = IF o = "fetch" THEN "wait" ELSE "head"] /\ res' = [res EXCEPT ![c] = "none"]
Working(c) == op[c] = "fetch" /\ ph[c] \in {"head", "get"}
Grant(c) ==
  /\ ph[c] = "wait" /\ \A d \in Callers : ~Working(d) /\ act' = [n |-> "grant", c |-> c] /\ UNCHANGED <<setup, server, entry, file, op, tag, calls, pubs, faults>>
  /\ IF op[c] = "fetch" THEN ph' = [ph EXCEPT ![c] = "head"] /\ UNCHANGED res
     ELSE Ends(c, IF Current(tag[c]) THEN "current" ELSE "outdated")
Heads(c) ==
  /\ ph[c] = "head" /\ act' = [n |-> "head", c |-> c] /\ tag' = [tag EXCEPT ![c] = server] /\ UNCHANGED <<setup, server, file, op, calls, pubs, faults>>
  /\ IF op[c] = "check" THEN ph' = [ph EXCEPT ![c] = "wait"] /\ UNCHANGED <<res, entry>>
     ELSE IF Current(server) THEN Ends(c, file) /\ UNCHANGED entry
     ELSE ph' = [ph EXCEPT ![c] = "get"] /\ entry' = 0 /\ UNCHANGED res
HeadFails(c) ==
  /\ ph[c] = "head" /\ Fault("refused") /\ act' = [n |-> "head-fails", c |-> c] /\ Ends(c, "error") /\ UNCHANGED <<setup, server, entry, file, op, tag, calls, pubs>>
Get(c) ==
  /\ ph[c] = "get" /\ act' = [n |-> "get", c |-> c] /\ file' = Ver(server) /\ entry' = tag[c] /\ Ends(c, Ver(server)) /\ UNCHANGED <<setup, server, op, tag, calls, pubs, faults>>
GetFails(c) ==
  /\ ph[c] = "get" /\ Fault("refused") /\ act' = [n |-> "get-fails", c |-> c] /\ Ends(c, "error") /\ UNCHANGED <<setup, server, entry, file, op, tag, calls, pubs>>
Crash(c, k) ==
  /\ Working(c) /\ Fault(k) /\ act' = [n |-> "crash", c |-> c, k |-> k] /\ Ends(c, "crashed") /\ UNCHANGED <<setup, server, op, tag, calls, pubs>>
  /\ CASE k = "crash" -> UNCHANGED entry /\ (IF ph[c] = "get" THEN file' = "part" ELSE UNCHANGED file)
       [] k = "noting" -> ph[c] = "get" /\ file' = Ver(server) /\ entry' = 0 \* everything arrived, but noting that was cut short
Lost == /\ Fault("lost") /\ file # "none" /\ \A c \in Callers : ph[c] = "idle" /\ file' = "none" /\ act' = [n |-> "lost"] /\ UNCHANGED <<setup, server, entry, ph, op, tag, res, calls, pubs>>
Next == Publish \/ Lost \/ \E c \in Callers : \/ Grant(c) \/ Heads(c) \/ HeadFails(c) \/ Get(c) \/ GetFails(c) \/ (\E o \in Ops : Call(c, o)) \/ (\E k \in {"crash", "noting"} : Crash(c, k))
Spec == Init /\ [][Next]_vars
OneAtATime == Cardinality({c \in Callers : Working(c)}) <= 1
NotedIsComplete == entry # 0 => file \in {"v1", "v2", "none"}
SuccessIsComplete == \A c \in Callers : res[c] # "part"
=============================================================================
