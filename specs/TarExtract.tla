----------------------------- MODULE TarExtract -----------------------------
(***************************************************************************)
(* D02.  The course of an extraction: N files arrive one after another,    *)
(* and (if width > 1) at most that many are being written.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Flows, Widths, Retries, N

VARIABLES flow, width, retries,
          att, phase, \* "req", "body", "drain", "winding", "ok", "failed"
          k,          \* files received
          done,       \* files written, or failed to be
          err,        \* one could not be written
          el, last, stalled, act
vars == <<flow, width, retries, att, phase, k, done, err, el, last, stalled, act>>
View == <<flow, width, retries, att, phase, k, done, err, el, last, stalled>>
RECURSIVE Seq0(_)
Seq0(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Seq0(S \ {m})
(* the files being written: the earliest ones *)
Busy == LET open == {i \in 1..k : i \notin done} IN {i \in open : Cardinality({j \in open : j < i}) < width}
Rec == [flow |-> flow, width |-> width, retries |-> retries, att |-> att, phase |-> phase, k |-> k, done |-> Seq0(done), busy |-> Seq0(Busy), err |-> err, el |-> el, last |-> last, stalled |-> stalled]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == flow \in Flows /\ width \in Widths /\ retries \in Retries /\ att = 0 /\ phase = "req" /\ k = 0 /\ done = {} /\ err = FALSE /\ el = 0 /\ last = "none" /\ stalled = FALSE /\ act = [n |-> "init"]
Fixed == UNCHANGED <<flow, width, retries>>
Lost(why) ==
  /\ last' = why /\ k' = 0 /\ done' = {} /\ err' = FALSE /\ el' = 0
  /\ IF att < retries THEN phase' = "req" /\ att' = att + 1 ELSE phase' = "failed" /\ att' = att
Refuse == phase = "req" /\ Lost("404") /\ act' = [n |-> "refuse"] /\ Fixed /\ UNCHANGED stalled
Answer == phase = "req" /\ phase' = "body" /\ act' = [n |-> "answer"] /\ Fixed /\ UNCHANGED <<att, k, done, err, el, last, stalled>>
Piece == /\ phase = "body" /\ k < N /\ k' = k + 1 /\ act' = [n |-> "piece"] /\ Fixed
         /\ done' = IF width = 1 THEN done \cup {k + 1} ELSE done
         /\ UNCHANGED <<att, phase, err, el, last, stalled>>
(* the last write is over *)
Settle(d, e, ph) == IF ph = "drain" /\ d = 1..k THEN (IF e THEN Lost("disk") ELSE phase' = "ok" /\ last' = "none" /\ UNCHANGED <<att, k, el>> /\ done' = d /\ err' = e)
                    ELSE phase' = ph /\ done' = d /\ err' = e /\ UNCHANGED <<att, k, el, last>>
Written(i) == phase \in {"body", "drain"} /\ i \in Busy /\ Settle(done \cup {i}, err, phase) /\ act' = [n |-> "written", i |-> i] /\ Fixed /\ UNCHANGED stalled
Unwritten(i) == phase \in {"body", "drain"} /\ i \in Busy /\ Settle(done \cup {i}, TRUE, phase) /\ act' = [n |-> "unwritten", i |-> i] /\ Fixed /\ UNCHANGED stalled
End == phase = "body" /\ k = N /\ act' = [n |-> "end"] /\ Fixed /\ UNCHANGED stalled /\ Settle(done, err, "drain")
(* the content breaks off, or turns out to be corrupt *)
Break(why) ==
  /\ phase = "body" /\ act' = [n |-> "break", kind |-> why] /\ Fixed /\ UNCHANGED stalled /\ (why = "short" => k < N)
  /\ IF Busy = {} THEN Lost(why) ELSE phase' = "winding" /\ last' = why /\ UNCHANGED <<att, k, done, err, el>>
(* what was being written then comes to its end first *)
Wound(i) ==
  /\ phase = "winding" /\ i \in Busy /\ act' = [n |-> "wound", i |-> i] /\ Fixed /\ UNCHANGED stalled
  /\ IF Busy = {i} THEN Lost(last) ELSE phase' = phase /\ done' = done \cup {i} /\ k' = (IF k > Cardinality(done) + Cardinality(Busy) THEN Cardinality(done) + Cardinality(Busy) ELSE k) /\ UNCHANGED <<att, err, el, last>>
Half == phase \in {"body", "drain"} /\ el = 0 /\ el' = 1 /\ act' = [n |-> "half"] /\ Fixed /\ UNCHANGED <<att, phase, k, done, err, last, stalled>>
(* the time limit passes; if the disk stalls as well, nothing more can be done *)
Late == /\ phase \in {"body", "drain"} /\ el = 1 /\ act' = [n |-> "late"] /\ Fixed
        /\ (Busy # {} => att = retries) /\ stalled' = (Busy # {}) /\ Lost("late")
Next == Refuse \/ Answer \/ Piece \/ End \/ Half \/ Late \/ (\E i \in 1..N : Written(i) \/ Unwritten(i) \/ Wound(i)) \/ \E w \in {"break", "short", "corrupt"} : Break(w)
Spec == Init /\ [][Next]_vars
Bounded == att <= retries
CompleteIfOk == phase = "ok" => k = N /\ done = 1..N /\ ~err
NarrowEnough == width > 1 => Cardinality(Busy) <= width
FailsOnlyAtTheEnd == [][(phase' = "failed" /\ phase # "failed") => att = retries]_vars
=============================================================================
