---------------------------- MODULE EdgeSession ----------------------------
(***************************************************************************)
(* S02.  The life of stored backend sessions: metadata before chunks,      *)
(* contiguous chunk numbers, rollover when full or old, abandonment after  *)
(* failures, cooldown.  Times are in milliseconds, relative: age is the    *)
(* time since the durable session started, since the time since it was     *)
(* abandoned.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxChunks, SessionMs, CooldownMs, MaxFails,   \* the limits
          Deltas, Preloads, MaxSessions, MaxLen, MaxPend, FailKinds

VARIABLES s,       \* durable session: [no, idx, meta, fails, ab, age, since], no = 0: none yet
          w,       \* working copy of the drain under way, age/since as of its start
          stage,   \* upload under way: none, meta, chunk, marker
          pend,    \* reports waiting (not being uploaded)
          snap,    \* reports being uploaded
          dropped, \* reports lost so far by the last step (to be compared with the code)
          nsess, len, act

vars == <<s, w, stage, pend, snap, dropped, nsess, len, act>>
Rec == [s |-> s, w |-> w, stage |-> stage, pend |-> pend, snap |-> snap, dropped |-> dropped, nsess |-> nsess]
View == <<s, w, stage, pend, snap, dropped, nsess>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

None == [no |-> 0, idx |-> 0, meta |-> FALSE, fails |-> 0, ab |-> FALSE, age |-> 0, since |-> 0]
Fresh(k) == [None EXCEPT !.no = k]
Init == /\ s = None /\ w = None /\ stage = "none" /\ pend = 0 /\ snap = 0 /\ dropped = 0 /\ nsess = 0 /\ len = 0
        /\ act = [n |-> "init"]
Step(a) == act' = a /\ len' = len + 1 /\ len < MaxLen

Min(a, b) == IF a < b THEN a ELSE b
Cap(x) == Min(x, SessionMs + CooldownMs)

(* A history of k successful chunks, as a starting point. *)
Preload(k) == /\ len = 0 /\ s = None /\ pend = 0 /\ stage = "none"
              /\ s' = [Fresh(1) EXCEPT !.idx = k, !.meta = TRUE] /\ nsess' = 1
              /\ Step([n |-> "preload", k |-> k]) /\ dropped' = 0
              /\ UNCHANGED <<w, stage, pend, snap>>

Report == /\ pend < MaxPend
          /\ pend' = pend + 1 /\ dropped' = 0
          /\ Step([n |-> "report"])
          /\ UNCHANGED <<s, w, stage, snap, nsess>>

(* Time passes (also while an upload is under way). *)
Advance(d) == /\ s.no > 0 /\ (IF s.ab THEN s.since < CooldownMs ELSE s.age < SessionMs)
              /\ s' = [s EXCEPT !.age = Cap(@ + d), !.since = IF s.ab THEN Cap(@ + d) ELSE 0]
              /\ w' = IF stage = "none" THEN w ELSE [w EXCEPT !.age = Cap(@ + d), !.since = Cap(@ + d)]
              /\ Step([n |-> "advance", d |-> d]) /\ dropped' = 0
              /\ UNCHANGED <<stage, pend, snap, nsess>>

Full(x) == x.idx >= MaxChunks \/ x.age >= SessionMs
Cooling == s.ab /\ s.since < CooldownMs

(* A drain starts (its alarm fires). *)
Start ==
  /\ stage = "none" /\ pend > 0
  /\ IF Cooling
     THEN \* everything waiting is discarded
          /\ dropped' = pend /\ pend' = 0 /\ UNCHANGED <<s, w, stage, snap, nsess>>
     ELSE LET new == s.no = 0 \/ s.ab \/ Full(s)
              b == IF new THEN Fresh(nsess + 1) ELSE s
          IN /\ (new => nsess < MaxSessions)
             /\ w' = [b EXCEPT !.since = 0]  \* `since` of the working copy counts from the start of the drain
             /\ nsess' = IF new THEN nsess + 1 ELSE nsess
             /\ stage' = IF b.meta THEN "chunk" ELSE "meta"
             /\ snap' = pend /\ pend' = 0 /\ dropped' = 0
             /\ UNCHANGED s
  /\ Step([n |-> "alarm"])

Commit(x) == s' = x /\ stage' = "none" /\ w' = None /\ snap' = 0

Ok == /\ stage # "none"
      /\ CASE stage = "meta" -> /\ w' = [w EXCEPT !.meta = TRUE] /\ stage' = "chunk" /\ dropped' = 0 /\ UNCHANGED <<s, snap, pend>>
           [] stage = "chunk" -> /\ Commit([w EXCEPT !.idx = @ + 1, !.fails = 0, !.since = 0]) /\ dropped' = 0 /\ UNCHANGED pend
           [] stage = "marker" -> /\ Commit([w EXCEPT !.ab = TRUE]) /\ dropped' = snap + pend /\ pend' = 0
      /\ Step([n |-> "answer", ok |-> TRUE, kind |-> "ok"])
      /\ UNCHANGED nsess

Fail(k) ==
      /\ stage # "none"
      /\ CASE stage = "meta" -> /\ stage' = "marker" /\ dropped' = 0 /\ UNCHANGED <<s, w, snap, pend>>
           [] stage = "chunk" ->
                IF w.fails + 1 >= MaxFails
                THEN /\ w' = [w EXCEPT !.fails = @ + 1] /\ stage' = "marker" /\ dropped' = 0 /\ UNCHANGED <<s, snap, pend>>
                ELSE /\ Commit([w EXCEPT !.fails = @ + 1, !.since = 0]) /\ dropped' = snap /\ UNCHANGED pend
           [] stage = "marker" -> /\ Commit([w EXCEPT !.ab = TRUE]) /\ dropped' = snap + pend /\ pend' = 0
      /\ Step([n |-> "answer", ok |-> FALSE, kind |-> k])
      /\ UNCHANGED nsess

Next == \/ Report \/ Start \/ Ok \/ (\E k \in FailKinds : Fail(k)) \/ (\E d \in Deltas : Advance(d)) \/ (\E k \in Preloads : Preload(k))
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
TypeOK == stage \in {"none", "meta", "chunk", "marker"} /\ s.idx \leq MaxChunks /\ s.fails \leq MaxFails
MetadataFirst == (stage = "chunk" => w.meta) /\ (s.idx > 0 => s.meta)
ChunkBound == stage = "chunk" => w.idx + 1 \leq MaxChunks
NoUploadWhileCooling == [][(stage = "none" /\ stage' # "none") => ~Cooling]_vars
FreshAfterAbandon == [][(stage = "none" /\ stage' # "none" /\ s.ab) => w'.no > s.no /\ w'.idx = 0]_vars
NoOldChunk == [][(stage = "none" /\ stage' # "none" /\ w'.no = s.no) => s.age < SessionMs /\ s.idx < MaxChunks]_vars
Contiguous == [][s' # s /\ s'.no = s.no => s'.idx \in {s.idx, s.idx + 1}]_vars
SuccessResets == [][s'.idx = s.idx + 1 /\ s'.no = s.no => s'.fails = 0]_vars
AbandonedOnlyByFailures == [][(s'.ab /\ ~s.ab) => stage = "marker"]_vars
=============================================================================
