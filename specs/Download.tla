------------------------------ MODULE Download ------------------------------
(***************************************************************************)
(* D01.  One download: to a file, to an archive that is then extracted, or *)
(* inflated on the way to a file.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Modes,   \* "file", "zip", "inflate"
          Retries, \* how often content is fetched again
          Delays,  \* the pause before that, in ms
          Limits,  \* "standard", or the caller's "own" time limits
          Pres,    \* whether the target exists already
          Kinds,   \* what may go wrong
          N        \* the pieces the content arrives in

VARIABLES mode, retries, delay, limit, pre,
          att,   \* earlier attempts
          tries, \* transient failures of the request of this attempt
          phase, \* "req", "body", "extract", "ok", "failed"
          got,   \* pieces received in this attempt
          el,    \* halves of the time limit that have passed since the answer
          last,  \* the last failure
          wrote, \* anything was ever written to the target
          act
vars == <<mode, retries, delay, limit, pre, att, tries, phase, got, el, last, wrote, act>>
View == <<mode, retries, delay, limit, pre, att, tries, phase, got, el, last, wrote>>
Rec == [mode |-> mode, retries |-> retries, delay |-> delay, limit |-> limit, pre |-> pre, att |-> att, tries |-> tries, phase |-> phase, got |-> got, el |-> el, last |-> last, wrote |-> wrote]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ mode \in Modes /\ retries \in Retries /\ delay \in Delays /\ limit \in Limits /\ pre \in Pres
        /\ (mode = "zip" => retries = 3 /\ delay = 1000) \* its options are not the caller's
        /\ att = 0 /\ tries = 0 /\ phase = "req" /\ got = 0 /\ el = 0 /\ last = "none" /\ wrote = FALSE /\ act = [n |-> "init"]
Fixed == UNCHANGED <<mode, retries, delay, limit, pre>>

(* this attempt is over *)
Lost(k, again) ==
  /\ last' = k /\ got' = 0 /\ el' = 0 /\ tries' = 0
  /\ IF again /\ att < retries THEN phase' = "req" /\ att' = att + 1 ELSE phase' = "failed" /\ att' = att

Transient == {"503", "429", "reset"}
RequestFails(k) ==
  /\ phase = "req" /\ k \in {"404", "503", "429", "reset", "silent"} /\ Fixed /\ act' = [n |-> "refuse", kind |-> k]
  /\ wrote' = (wrote \/ mode = "inflate")
  /\ IF k \in Transient /\ tries < 3 THEN tries' = tries + 1 /\ last' = k /\ UNCHANGED <<att, phase, got, el>>
     ELSE Lost(k, mode = "inflate")
Answer == /\ phase = "req" /\ phase' = "body" /\ got' = 0 /\ el' = 0 /\ tries' = 0 /\ wrote' = TRUE /\ act' = [n |-> "answer"] /\ Fixed /\ UNCHANGED <<att, last>>
Piece == /\ phase = "body" /\ got < N /\ got' = got + 1 /\ act' = [n |-> "piece"] /\ Fixed /\ UNCHANGED <<att, tries, phase, el, last, wrote>>
Half == /\ phase = "body" /\ Fixed /\ UNCHANGED wrote /\ act' = [n |-> "half"]
        /\ IF el = 0 THEN el' = 1 /\ UNCHANGED <<att, tries, phase, got, last>> ELSE Lost("late", TRUE)
BodyFails(k) ==
  /\ phase = "body" /\ Fixed /\ UNCHANGED wrote /\ act' = [n |-> "body", kind |-> k]
  /\ \/ k = "break"
     \/ k = "disk" /\ got < N
     \/ k \in {"corrupt", "short"} /\ mode = "inflate" /\ got < N
  /\ Lost(k, TRUE)
End == /\ phase = "body" /\ got = N /\ phase' = (IF mode = "zip" THEN "extract" ELSE "ok") /\ act' = [n |-> "end"] /\ last' = "none" /\ Fixed /\ UNCHANGED <<att, tries, got, el, wrote>>
Extracted(k) == /\ phase = "extract" /\ k \in {"good", "bad", "hang"} /\ phase' = (IF k = "good" THEN "ok" ELSE "failed") /\ last' = (IF k = "good" THEN "none" ELSE k)
                /\ act' = [n |-> "extracted", kind |-> k] /\ Fixed /\ UNCHANGED <<att, tries, got, el, wrote>>
Next == Answer \/ Piece \/ Half \/ End \/ \E k \in Kinds : RequestFails(k) \/ BodyFails(k) \/ Extracted(k)
Spec == Init /\ [][Next]_vars

(* what the target holds once it is over: all of it, nothing, or what it held before *)
Target == IF phase = "ok" THEN (IF mode = "zip" THEN "none" ELSE "all") ELSE IF wrote \/ ~pre THEN "none" ELSE "old"
Bounded == att <= retries /\ tries <= 3
CompleteIfOk == (phase \in {"ok", "extract"}) => got = N
GivenUpLate == [][(phase = "body" /\ phase' = "failed") => att = retries]_vars
NeverPartial == phase \in {"ok", "failed"} => Target \in {"all", "none", "old"}
=============================================================================
