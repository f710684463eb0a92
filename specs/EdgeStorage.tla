---------------------------- MODULE EdgeStorage ----------------------------
(***************************************************************************)
(* S05.  Writes of the edge sidecar to object storage, and the temporary   *)
(* credentials that sign them: fetched in two calls from an identity pool, *)
(* shared, reused until five minutes before their end, and given up when   *)
(* the store refuses them.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Confs,    \* how the store is configured
          Lives,    \* minutes for which credentials live; 0: the pool does not say (then half an hour)
          Passing,  \* minutes that may pass at once
          IdAnswers, CredAnswers, PutAnswers,
          MaxWrites, MaxFetches, MaxTime, MaxLen

VARIABLES conf, now,
          cred,     \* the credentials at hand: [id, end], or id = 0
          fetch,    \* "no", "id", "cred": the call under way
          fetches,  \* fetches begun so far; the n-th gives credentials n
          writes,   \* sequence of [st, by]: "waiting" (for credentials), "sent" (signed with by), "ok", "failed"
          len, act
vars == <<conf, now, cred, fetch, fetches, writes, len, act>>
Rec == [conf |-> conf, now |-> now, cred |-> cred, fetch |-> fetch, fetches |-> fetches, writes |-> writes]
View == <<conf, now, cred, fetch, fetches, writes>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Margin == 5
None == [id |-> 0, end |-> 0]
Init == conf \in Confs /\ now = 0 /\ cred = None /\ fetch = "no" /\ fetches = 0 /\ writes = <<>> /\ len = 0 /\ act = [n |-> "init"]
Step(a) == len < MaxLen /\ len' = len + 1 /\ act' = a /\ UNCHANGED conf

Usable == cred.id # 0 /\ cred.end > now + Margin
Write ==
  /\ Len(writes) < MaxWrites /\ Step([n |-> "write"]) /\ UNCHANGED <<now, cred>>
  /\ IF Usable THEN writes' = Append(writes, [st |-> "sent", by |-> cred.id]) /\ UNCHANGED <<fetch, fetches>>
     ELSE /\ writes' = Append(writes, [st |-> "waiting", by |-> 0])
          /\ IF fetch # "no" THEN UNCHANGED <<fetch, fetches>>
             ELSE fetches < MaxFetches /\ fetch' = "id" /\ fetches' = fetches + 1

(* the first call gives an identity, the second credentials for it *)
FetchFails(k) ==
  /\ fetch' = "no" /\ UNCHANGED <<now, cred, fetches>>
  /\ writes' = [i \in DOMAIN writes |-> IF writes[i].st = "waiting" THEN [st |-> "failed", by |-> 0] ELSE writes[i]]
Id(k) == fetch = "id" /\ Step([n |-> "id", k |-> k]) /\ IF k = "ok" THEN fetch' = "cred" /\ UNCHANGED <<now, cred, fetches, writes>> ELSE FetchFails(k)
Cred(k, m) ==
  /\ fetch = "cred" /\ (k # "ok" => m = CHOOSE x \in Lives : TRUE) /\ Step([n |-> "cred", k |-> k, m |-> m])
  /\ IF k # "ok" THEN FetchFails(k)
     ELSE /\ fetch' = "no" /\ cred' = [id |-> fetches, end |-> now + (IF m = 0 THEN 30 ELSE m)] /\ UNCHANGED <<now, fetches>>
          /\ writes' = [i \in DOMAIN writes |-> IF writes[i].st = "waiting" THEN [st |-> "sent", by |-> fetches] ELSE writes[i]]
(* a refusal by the store (403) makes the next write fetch new ones *)
Put(i, k) ==
  /\ i \in DOMAIN writes /\ writes[i].st = "sent" /\ Step([n |-> "put", i |-> i, k |-> k]) /\ UNCHANGED <<now, fetch, fetches>>
  /\ (k = "403" => cred.id \in {0, writes[i].by}) \* whether a late refusal of older credentials gives up newer ones is left open
  /\ writes' = [writes EXCEPT ![i].st = IF k = "ok" THEN "ok" ELSE "failed"]
  /\ cred' = IF k = "403" THEN None ELSE cred
Pass(m) == now + m <= MaxTime /\ (\E i \in DOMAIN writes : writes[i].st = "ok") /\ Step([n |-> "pass", m |-> m]) /\ now' = now + m /\ UNCHANGED <<cred, fetch, fetches, writes>>
Next == Write \/ (\E k \in IdAnswers : Id(k)) \/ (\E k \in CredAnswers, m \in Lives : Cred(k, m)) \/ (\E i \in DOMAIN writes, k \in PutAnswers : Put(i, k)) \/ \E m \in Passing : Pass(m)
Spec == Init /\ [][Next]_vars

(* writes only wait while credentials are being fetched; outcomes last; nobody is signed for with credentials given up *)
WaitingIsFetching == (\E i \in DOMAIN writes : writes[i].st = "waiting") => fetch # "no"
FetchingIsForSomeone == fetch # "no" => \E i \in DOMAIN writes : writes[i].st = "waiting"
Final == [][\A i \in DOMAIN writes : writes[i].st \in {"ok", "failed"} => writes'[i] = writes[i]]_vars
Signed == \A i \in DOMAIN writes : writes[i].st \in {"sent", "ok"} => writes[i].by \in 1..fetches
NoMoreThanNeeded == [][fetches' # fetches => ~Usable /\ fetch = "no"]_vars
=============================================================================
