--------------------------- MODULE EdgeReplayMode ---------------------------
(***************************************************************************)
(* E03.  Which requests are handled as replays.  The table decides a       *)
(* single request from its headers and the sidecar's answer; the history   *)
(* follows the remembered answers over concurrent requests.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Schemes, Hosts, Ports, Tails, Users, Sessions, ReplayIds, Replies, Recs, \* table
          Keys, Answers, MaxRequests, Capacity, Fill, Fillers, MaxLen, Mode

VARIABLES cfg,      \* table: the request
          out,      \* table: "none", "replay", "ordinary"
          asked,    \* table: did the sidecar get asked
          reqs,     \* history: requests [key, look, st]
          looks,    \* history: lookups [key, st]
          mem,      \* history: what is remembered, oldest first: [key, look]; key "filler" stands for unrelated ones
          len, act
vars == <<cfg, out, asked, reqs, looks, mem, len, act>>
Rec == [cfg |-> cfg, out |-> out, asked |-> asked, reqs |-> reqs, looks |-> looks, mem |-> mem]
View == <<cfg, out, asked, reqs, looks, mem>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Local == {"localhost", "LocalHost", "127.0.0.1", "127.9.9.9", "10.1.2.3", "172.16.0.1", "172.31.255.255", "192.168.1.1", "[::1]", "host.docker.internal", "host.containers.internal", "0177.0.0.1", "2130706433"}
ValidUrl(c) == c.scheme \in {"http", "HTTP"} /\ c.host \in Local /\ c.tail \in {"none", "slash"} /\ c.user = "none"
Proof(c) == ValidUrl(c) /\ c.session = "some" /\ c.replay = "some"

Init == /\ IF Mode = "table"
           THEN cfg \in [scheme : Schemes, host : Hosts, port : Ports, tail : Tails, user : Users, session : Sessions, replay : ReplayIds, reply : Replies, rec : Recs]
           ELSE cfg = "history"
        /\ (Mode = "table" => (Proof(cfg) \/ cfg.reply = "found"))
        /\ out = "none" /\ asked = FALSE /\ reqs = <<>> /\ looks = <<>> /\ len = 0 /\ act = [n |-> "init"]
        /\ mem = [i \in 1..Fill |-> [key |-> "filler", look |-> 0]]

(* ------------------------------- table ------------------------------- *)
Decide ==
  /\ Mode = "table" /\ out = "none" /\ act' = [n |-> "decide"] /\ len' = len + 1
  /\ asked' = Proof(cfg)
  /\ out' = IF Proof(cfg) /\ cfg.reply = "found" THEN "replay" ELSE "ordinary"
  /\ UNCHANGED <<cfg, reqs, looks, mem>>

(* ------------------------------ history ------------------------------ *)
Step(a) == Mode = "history" /\ len < MaxLen /\ len' = len + 1 /\ act' = a /\ UNCHANGED <<cfg, out, asked>>
At(k) == {i \in DOMAIN mem : mem[i].key = k}
Status(l) == looks[l].st
Remember(m, e) == (IF Len(m) >= Capacity THEN Tail(m) ELSE m) \o <<e>>

Request(k) ==
  /\ Len(reqs) < MaxRequests /\ Step([n |-> "request", key |-> k])
  /\ IF At(k) # {}
     THEN LET l == mem[CHOOSE i \in At(k) : TRUE].look
          IN /\ reqs' = Append(reqs, [key |-> k, look |-> l, st |-> IF Status(l) = "asking" THEN "waiting" ELSE IF Status(l) = "found" THEN "replay" ELSE "ordinary"])
             /\ UNCHANGED <<looks, mem>>
     ELSE /\ looks' = Append(looks, [key |-> k, st |-> "asking"])
          /\ mem' = Remember(mem, [key |-> k, look |-> Len(looks) + 1])
          /\ reqs' = Append(reqs, [key |-> k, look |-> Len(looks) + 1, st |-> "waiting"])

Settled(a) == CASE a = "found" -> "found" [] a \in {"notFound", "noRoute"} -> "unavailable" [] OTHER -> "unreachable"
AnswerOf(l, a, lk, rq, m) ==
  LET st == Settled(a) IN
  [looks |-> [lk EXCEPT ![l].st = st],
   reqs |-> [i \in DOMAIN rq |-> IF rq[i].look = l THEN [rq[i] EXCEPT !.st = IF st = "found" THEN "replay" ELSE "ordinary"] ELSE rq[i]],
   mem |-> IF st = "unreachable" THEN SelectSeq(m, LAMBDA e : e.look # l) ELSE m]
Answer(l, a) ==
  /\ looks[l].st = "asking" /\ Step([n |-> "answer", l |-> l, a |-> a])
  /\ LET r == AnswerOf(l, a, looks, reqs, mem) IN looks' = r.looks /\ reqs' = r.reqs /\ mem' = r.mem
(* nobody answers in time *)
Timeout ==
  /\ \E l \in DOMAIN looks : looks[l].st = "asking"
  /\ Step([n |-> "timeout"])
  /\ LET open == {l \in DOMAIN looks : looks[l].st = "asking"} IN
     /\ looks' = [l \in DOMAIN looks |-> IF l \in open THEN [looks[l] EXCEPT !.st = "unreachable"] ELSE looks[l]]
     /\ reqs' = [i \in DOMAIN reqs |-> IF reqs[i].st = "waiting" THEN [reqs[i] EXCEPT !.st = "ordinary"] ELSE reqs[i]]
     /\ mem' = SelectSeq(mem, LAMBDA e : e.look \notin open)
(* n unrelated sessions are looked up and remembered *)
Fills(m, n) == LET all == m \o [i \in 1..n |-> [key |-> "filler", look |-> 0]]
                   over == IF Len(all) > Capacity THEN Len(all) - Capacity ELSE 0
               IN SubSeq(all, over + 1, Len(all))
Filler(n) == Step([n |-> "filler", k |-> n]) /\ mem' = Fills(mem, n) /\ UNCHANGED <<reqs, looks>>

Next == Decide \/ Timeout \/ (\E n \in Fillers : Filler(n)) \/ (\E k \in Keys : Request(k)) \/ \E l \in DOMAIN looks, a \in Answers : Answer(l, a)
Spec == Init /\ [][Next]_vars

OnlyWithProof == (out = "replay" => Proof(cfg)) /\ \A i \in DOMAIN reqs : reqs[i].st = "replay" => looks[reqs[i].look].st = "found" /\ looks[reqs[i].look].key = reqs[i].key
Bounded == Len(mem) <= Capacity
OnePerKey == \A k \in Keys : Cardinality(At(k)) <= 1
OnlySettledRemembered == \A i \in DOMAIN mem : mem[i].look # 0 => Status(mem[i].look) # "unreachable"
Waiting == \A i \in DOMAIN reqs : (reqs[i].st = "waiting") = (looks[reqs[i].look].st = "asking")
=============================================================================
