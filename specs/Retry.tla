------------------------------- MODULE Retry -------------------------------
(***************************************************************************)
(* U04.  Retries of the launcher's and the client's requests.  Times are   *)
(* milliseconds.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Layers, Kinds, Randoms

VARIABLES layer, rnd,  \* the random number in use, in tenths
          att,         \* failed attempts so far
          phase,       \* "call", "wait", "ok", "failed"
          lo, hi,      \* the bounds of the wait
          last,        \* the last failure
          act
vars == <<layer, rnd, att, phase, lo, hi, last, act>>
View == <<layer, rnd, att, phase, lo, hi, last>>
Rec == [layer |-> layer, rnd |-> rnd, att |-> att, phase |-> phase, lo |-> lo, hi |-> hi, last |-> last]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Api == {"get", "post", "put", "delete"}
Put == {"buffer", "file"}
Own == {"large", "once"}   \* uploads with a first delay of 20 s and four attempts, and with one attempt
Attempts(l) == IF l \in Api \cup {"large"} THEN 4 ELSE IF l = "once" THEN 1 ELSE IF l \in Put THEN 5 ELSE IF l = "push" THEN 3 ELSE IF l = "none" THEN 1 ELSE 3 \* "limited": two retries, at most 1.5 s apart
RetryAfter == {"ra0", "ra2", "ra120", "radate", "rapast", "rabad", "ranone"} \* all with status 429 or 503
(* what is worth another attempt *)
Transient(l, k) ==
  CASE l \in Api -> k \in RetryAfter \cup {"500", "502", "504", "599", "timeout", "ECONNRESET", "ETIMEDOUT", "ECONNREFUSED", "ENOTFOUND", "UND_ERR_SOCKET", "UND_ERR_HEADERS_TIMEOUT", "UND_ERR_CONNECT_TIMEOUT", "cut"}
    [] l \in Put \cup Own -> k \in {"429", "500", "502", "503", "504", "ECONNRESET", "ETIMEDOUT", "ECONNABORTED", "EAI_AGAIN", "EPIPE", "cut"}
    [] l = "push" -> k \in {"stream", "daemon", "nodigest"}
    [] OTHER -> k \in RetryAfter \cup {"500", "ECONNRESET"}
(* what a layer can meet *)
CanMeet(l, k) ==
  CASE l \in Api -> k \notin {"ECONNABORTED", "EAI_AGAIN", "EPIPE", "429", "503", "stream", "daemon", "nodigest", "denied", "204", "501"}
    [] l \in Put -> k \notin RetryAfter \cup {"timeout", "UND_ERR_SOCKET", "UND_ERR_HEADERS_TIMEOUT", "UND_ERR_CONNECT_TIMEOUT", "stream", "daemon", "nodigest", "denied", "ra400", "ESSLCODE", "599"}
    [] l = "push" -> k \in {"stream", "daemon", "nodigest", "denied"}
    [] l \in Own -> k \in {"429", "500", "503", "400", "ECONNRESET", "EPIPE", "ECONNREFUSED", "EOTHER"}
    [] OTHER -> k \in RetryAfter \cup {"500", "400", "ECONNRESET", "EOTHER"}
Pow(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] OTHER -> 16
Min(a, b) == IF a < b THEN a ELSE b
Cap(l) == IF l = "push" THEN 2000 ELSE IF l = "limited" THEN 1500 ELSE 30000
Back(l, a) == Min(1000 * Pow(a), Cap(l)) \* half of it is fixed, and half random
Bounds(l, k, a) ==
  IF l \in Put THEN <<100 * Pow(a), 300 * Pow(a)>>
  ELSE IF l \in Own THEN <<Min(10000 * Pow(a), 30000), 30000>>
  ELSE IF k \in {"ra0", "rapast"} THEN <<0, 1000>>
  ELSE IF k = "ra2" THEN <<Min(2000, Cap(l)), Min(3000, Cap(l))>>
  ELSE IF k = "ra120" THEN <<Cap(l), Cap(l)>>
  ELSE IF k = "radate" THEN <<Min(5000, Cap(l)), Min(7000, Cap(l))>>
  ELSE <<Back(l, a) \div 2, Back(l, a)>>

Init == layer \in Layers /\ rnd \in Randoms /\ att = 0 /\ phase = "call" /\ lo = 0 /\ hi = 0 /\ last = "none" /\ act = [n |-> "init"]
Ok == phase = "call" /\ phase' = "ok" /\ act' = [n |-> "ok"] /\ last' = "none" /\ UNCHANGED <<layer, rnd, att, lo, hi>>
Fail(k) ==
  /\ phase = "call" /\ CanMeet(layer, k) /\ act' = [n |-> "fail", kind |-> k] /\ att' = att + 1 /\ last' = k /\ UNCHANGED <<layer, rnd>>
  /\ IF Transient(layer, k) /\ att + 1 < Attempts(layer)
     THEN phase' = "wait" /\ lo' = Bounds(layer, k, att)[1] /\ hi' = Bounds(layer, k, att)[2]
     ELSE phase' = "failed" /\ UNCHANGED <<lo, hi>>
Wait == phase = "wait" /\ phase' = "call" /\ act' = [n |-> "wait", lo |-> lo, hi |-> hi] /\ lo' = 0 /\ hi' = 0 /\ UNCHANGED <<layer, rnd, att, last>>
Next == Ok \/ (\E k \in Kinds : Fail(k)) \/ Wait
Spec == Init /\ [][Next]_vars

Bounded == att <= Attempts(layer)
Spaced == phase = "wait" => lo <= hi /\ hi <= 30000
FatalEndsIt == [][(phase = "call" /\ phase' = "wait") => Transient(layer, last')]_vars
NotGivenUp == [][(phase' = "failed" /\ phase # "failed") => (~Transient(layer, last') \/ att' = Attempts(layer))]_vars
=============================================================================
