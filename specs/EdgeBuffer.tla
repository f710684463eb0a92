---------------------------- MODULE EdgeBuffer ----------------------------
(***************************************************************************)
(* E01.  The capture buffer of one request: events are added directly or   *)
(* by producers (body reads) that finish at any time, sent in batches over *)
(* a chain of sends, early when they grow large, and at the close; what    *)
(* arrives after the close is sent on its own.  An event is a number in    *)
(* order of capture.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Kinds,      \* transports: subset of {"url", "binding"}
          Faults,     \* TRUE: the sidecar may also fail synchronously from the start
          AddSizes, Sizes, \* sizes of events added directly, and by producers: 0 small, 1 half the early-send limit, 2 the limit
          Ends,       \* ways in which a producer may end
          Answers,    \* ways in which the sidecar may answer
          MaxProducers, MaxEvents, MaxLen, Rounds

VARIABLES kind, sync,
          nev,       \* number of events captured so far
          buf, chars,\* events waiting in the buffer, their size
          chain,     \* batches sent or to be sent in order, the first one is in flight
          late,      \* events sent on their own, in flight
          prod,      \* prod[p]: "running" or "done"
          phase,     \* "open", "closing", "closed"
          snap, round, \* producers the close waits for, and how often it has looked
          sent,      \* requests made to the sidecar, in order: sequences of events
          len, act

vars == <<kind, sync, nev, buf, chars, chain, late, prod, phase, snap, round, sent, len, act>>
Rec == [kind |-> kind, sync |-> sync, nev |-> nev, buf |-> buf, chars |-> chars, chain |-> chain, late |-> late, prod |-> prod, phase |-> phase, snap |-> snap, round |-> round, sent |-> sent]
View == <<kind, sync, nev, buf, chars, chain, late, prod, phase, snap, round, sent>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ kind \in Kinds /\ sync \in (IF Faults THEN {"works", "throws"} ELSE {"works"})
        /\ nev = 0 /\ buf = <<>> /\ chars = 0 /\ chain = <<>> /\ late = {} /\ prod = <<>>
        /\ phase = "open" /\ snap = {} /\ round = 0 /\ sent = <<>> /\ len = 0 /\ act = [n |-> "init"]

(* ------------------------------------------------------------------ *)
(* the buffer as a function on a record of its variables               *)
S == [buf |-> buf, chars |-> chars, chain |-> chain, late |-> late, prod |-> prod, phase |-> phase, snap |-> snap, round |-> round, sent |-> sent, nev |-> nev]

(* a batch joins the chain; it is sent at once if nothing is in flight; a sidecar that throws ends it at once *)
Chained(s, b) ==
  IF s.chain = <<>>
  THEN [s EXCEPT !.sent = Append(@, b), !.chain = IF sync = "works" THEN <<b>> ELSE <<>>]
  ELSE [s EXCEPT !.chain = Append(@, b)]
Flush(s) == IF s.buf = <<>> THEN s ELSE Chained([s EXCEPT !.buf = <<>>, !.chars = 0], s.buf)
AddTo(s, size) ==
  LET e == s.nev + 1 IN
  IF s.phase = "closed"
  THEN [s EXCEPT !.nev = e, !.sent = Append(@, <<e>>), !.late = IF sync = "works" THEN @ \cup {e} ELSE @]
  ELSE LET t == [s EXCEPT !.nev = e, !.buf = Append(@, e), !.chars = @ + size]
       IN IF t.chars >= 2 THEN Flush(t) ELSE t
Running(s) == {p \in DOMAIN s.prod : s.prod[p] = "running"}
(* the close looks again whenever everything it waited for is done *)
RECURSIVE Look(_)
Look(s) ==
  IF s.phase # "closing" \/ s.snap \cap Running(s) # {} THEN s
  ELSE IF Running(s) = {} \/ s.round = Rounds THEN Flush([s EXCEPT !.phase = "closed", !.snap = {}])
  ELSE Look([s EXCEPT !.snap = Running(s), !.round = @ + 1])
Become(s) == LET t == Look(s) IN
  /\ buf' = t.buf /\ chars' = t.chars /\ chain' = t.chain /\ late' = t.late /\ prod' = t.prod /\ phase' = t.phase
  /\ snap' = t.snap /\ round' = t.round /\ sent' = t.sent /\ nev' = t.nev

(* ------------------------------------------------------------------ *)
Step(a) == /\ len < MaxLen /\ len' = len + 1 /\ act' = a /\ UNCHANGED <<kind, sync>>

Add(size) == Step([n |-> "add", size |-> size]) /\ nev < MaxEvents /\ Become(AddTo(S, size))
Track == Step([n |-> "track"]) /\ Len(prod) < MaxProducers /\ Become([S EXCEPT !.prod = Append(@, "running")])
Settle(p, how, size) ==
  /\ prod[p] = "running" /\ Step([n |-> "settle", p |-> p, how |-> how, size |-> size])
  /\ (how = "fail" \/ how = "none" => size = 0)
  /\ LET s1 == IF how \in {"event", "nested"} THEN AddTo(S, size) ELSE IF how = "failAfter" THEN AddTo(S, size) ELSE S
         s2 == IF how = "nested" THEN [s1 EXCEPT !.prod = Append(@, "running")] ELSE s1
     IN /\ s2.nev <= MaxEvents /\ Len(s2.prod) <= MaxProducers
        /\ Become([s2 EXCEPT !.prod[p] = "done"])
Close == Step([n |-> "close"]) /\ phase = "open" /\ Become([S EXCEPT !.phase = "closing"])

NextInChain(s) == LET rest == Tail(s.chain) IN [s EXCEPT !.chain = rest, !.sent = IF rest = <<>> THEN @ ELSE Append(@, Head(rest))]
(* an answer to the batch in flight, or to a late event; a stalled answer leaves it in flight *)
AnswerBatch(a) == chain # <<>> /\ Step([n |-> "answer", req |-> Head(chain), a |-> a]) /\ Become(NextInChain(S))
AnswerLate(e, a) == Step([n |-> "answer", req |-> <<e>>, a |-> a]) /\ e \in late /\ Become([S EXCEPT !.late = @ \ {e}])
(* nothing is answered in time: everything in flight is given up *)
Timeout == Step([n |-> "timeout"]) /\ (chain # <<>> \/ late # {})
           /\ Become(LET s == [S EXCEPT !.late = {}] IN IF s.chain # <<>> THEN NextInChain(s) ELSE s)

Next == \/ \E z \in AddSizes : Add(z)
        \/ Track \/ Close \/ Timeout
        \/ \E p \in DOMAIN prod, h \in Ends, z \in Sizes : Settle(p, h, z)
        \/ \E a \in Answers : AnswerBatch(a) \/ \E e \in late : AnswerLate(e, a)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ *)
Flat(q) == FlattenSeq(q)
(* every captured event is in exactly one place: handed over, waiting in the chain, or in the buffer *)
Waiting == Flat(IF chain = <<>> THEN <<>> ELSE Tail(chain)) \o buf
ExactlyOnce == LET all == Flat(sent) \o Waiting IN Len(all) = nev /\ ToSet(all) = 1..nev
InOrder == phase # "closed" => LET all == Flat(sent) \o Waiting IN all = [i \in 1..nev |-> i]
BatchesInOrder == \A i, j \in DOMAIN sent : i < j /\ Len(sent[i]) > 1 /\ Len(sent[j]) > 1 => Last(sent[i]) < Head(sent[j])
NothingLeft == (phase = "closed" /\ chain = <<>>) => buf = <<>> /\ nev = Len(Flat(sent))
(* what keeps the request alive *)
Held == chain # <<>> \/ late # {} \/ phase = "closing" \/ (phase = "closed" /\ Running(S) # {})
OutstandingIsHeld == phase = "closed" => (~Held => Running(S) = {} /\ nev = Len(Flat(sent)))
=============================================================================
