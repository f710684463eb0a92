---------------------------- MODULE EdgeIngest ----------------------------
(***************************************************************************)
(* S03.  The edge sidecar's HTTP surface: which requests are accepted,     *)
(* what is stored, what is answered; sharding; flushing of all shards;     *)
(* health.  A report carries `ids`, the request ids of its events.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Tokens, Bindings, ShardCounts, Methods, Paths, Versions, Lengths, Bodies, Stores, Ids, Flushes, MaxLen, Full

VARIABLES cfg,     \* deployment: [token, binding, shards]
          resp,    \* status of the last answer
          health,  \* `configured` of the last health answer, or "none"
          stored,  \* request ids of reports stored and not flushed yet (a bag as a sequence)
          flushed, \* number of reports uploaded by the last flush
          len, act
vars == <<cfg, resp, health, stored, flushed, len, act>>
Rec == [cfg |-> cfg, resp |-> resp, health |-> health, stored |-> stored, flushed |-> flushed]
View == <<cfg, resp, health, stored, flushed, len>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ cfg \in [token : Tokens, binding : Bindings, shards : ShardCounts]
        /\ resp = 0 /\ health = "none" /\ stored = <<>> /\ flushed = 0 /\ len = 0 /\ act = [n |-> "init"]

Configured == cfg.token = "set"
Usable == Configured /\ cfg.binding = "present"

(* the answer to a request that is not a flush or health request *)
Status(r) ==
  IF r.path = "health" /\ r.method = "GET" THEN 200
  ELSE IF ~Usable THEN 500
  ELSE IF r.path # "events" \/ r.method # "POST" THEN 404
  ELSE IF r.version # "2" THEN 400
  ELSE IF r.length = "over" THEN 413
  ELSE IF r.body \in {"noJson", "noArray", "object", "string"} THEN 400
  ELSE IF r.body = "empty" THEN 204
  ELSE IF r.store # "works" THEN 500
  ELSE 204

Accepts(r) == Status(r) = 204 /\ r.body \notin {"empty"}

Request(r) ==
  /\ len < MaxLen /\ len' = len + 1
  /\ ~(r.path = "flush" /\ r.method = "POST")
  /\ (r.path = "health" => r.version = "2" /\ r.length = "small" /\ r.body = "good" /\ r.store = "works")
  /\ (r.method # "POST" => r.body = "good" /\ r.length = "small" /\ r.store = "works")
  /\ (r.store # "works" => Usable)
  /\ resp' = Status(r)
  /\ health' = IF r.path = "health" /\ r.method = "GET" THEN (IF Configured THEN "true" ELSE "false") ELSE "none"
  /\ stored' = IF Accepts(r) THEN Append(stored, r.id) ELSE stored
  /\ flushed' = 0
  /\ act' = [n |-> "request", r |-> r]
  /\ UNCHANGED cfg

(* one object may fail ("first", "last"), or all; the behaviour ends there *)
Flush(k) ==
  /\ len < MaxLen /\ (k # "works" => Usable) /\ len' = IF k = "works" THEN len + 1 ELSE MaxLen
  /\ resp' = IF Usable /\ k = "works" THEN 204 ELSE 500
  /\ flushed' = IF Usable /\ k = "works" THEN Len(stored) ELSE 0
  /\ stored' = IF Usable /\ k = "works" THEN <<>> ELSE stored
  /\ health' = "none" /\ act' = [n |-> "flush", k |-> k]
  /\ UNCHANGED cfg

Reqs == [method : Methods, path : Paths, version : Versions, length : Lengths, body : Bodies, store : Stores, id : Ids]
Next == (\E k \in Flushes : Flush(k)) \/ \E r \in Reqs : Request(r)
Spec == Init /\ [][Next]_vars

AckOnlyStored == [][(act'.n = "request" /\ resp' = 204 /\ act'.r.body # "empty") => Len(stored') = Len(stored) + 1]_vars
ErrorStoresNothing == [][(act'.n = "request" /\ resp' # 204) => stored' = stored]_vars
NothingWithoutConfiguration == ~Usable => stored = <<>>
=============================================================================
