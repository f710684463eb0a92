---------------------------- MODULE EdgeUpload ----------------------------
(***************************************************************************)
(* S01.  The durable buffer behind the edge recorder sidecar: batches are  *)
(* stored when acknowledged, and uploaded as numbered chunks by drains     *)
(* that an alarm or a flush request starts.  One step is one external      *)
(* event followed by everything the code does until it waits again (the    *)
(* Durable Object runtime delivers no event during a storage operation).   *)
(*                                                                         *)
(* Uploads succeed here (failures are in EdgeSession.tla); a crash can     *)
(* happen while an upload is on its way, before the storage write that     *)
(* commits it, before the deletion of the uploaded batches, or in the      *)
(* middle of storing a batch.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxBatches,   \* batches reported in a behaviour
          Cap,          \* batches one drain takes
          MaxFlush,     \* flush requests in a behaviour
          MaxCrash,     \* crashes in a behaviour
          MaxFault,     \* storage operations that fail, in a behaviour
          MaxLen        \* bound on the number of steps

VARIABLES pend,     \* durable batches, in arrival order
          nacked,   \* batches 1..nacked were reported; those in `acked` acknowledged
          acked,
          alarm,    \* an alarm is armed
          queue,    \* drains asked for and not finished, in order: "alarm" or flush number
          stage,    \* what the drain at the head of the queue waits for: "none", "meta", "chunk"
          snap,     \* batches it is uploading
          meta,     \* durable: metadata uploaded
          idx,      \* durable: last committed chunk number
          sess,     \* durable: the session of idx (0: none yet)
          cur,      \* session the running drain uploads into (a session exists durably once a drain committed)
          nsess,    \* sessions started
          bucket,   \* uploads in order: <<chunk number, batches, session>>
          owed,     \* flush number -> batches acknowledged before it was asked for
          answered, \* flushes answered
          failed,   \* flushes that failed
          nflush, ncrash, nfault, metas, len, act

vars == <<pend, nacked, acked, alarm, queue, stage, snap, meta, idx, sess, cur, nsess, bucket, owed, answered, failed, nflush, ncrash, nfault, metas, len, act>>
Rec == [pend |-> pend, nacked |-> nacked, acked |-> acked, alarm |-> alarm, queue |-> queue, stage |-> stage,
        snap |-> snap, meta |-> meta, idx |-> idx, sess |-> sess, cur |-> cur, nsess |-> nsess, bucket |-> bucket, owed |-> owed, answered |-> answered,
        nflush |-> nflush, ncrash |-> ncrash, metas |-> metas, failed |-> failed, nfault |-> nfault]
View == Rec
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ pend = <<>> /\ nacked = 0 /\ acked = {} /\ alarm = FALSE /\ queue = <<>> /\ stage = "none" /\ snap = <<>>
        /\ meta = FALSE /\ idx = 0 /\ sess = 0 /\ cur = 0 /\ nsess = 0 /\ bucket = <<>> /\ owed = <<>> /\ answered = {} /\ nflush = 0 /\ ncrash = 0
        /\ metas = 0 /\ failed = {} /\ nfault = 0 /\ len = 0 /\ act = [n |-> "init"]

Take(p) == SubSeq(p, 1, IF Len(p) < Cap THEN Len(p) ELSE Cap)
Uploaded == UNION {ToSet(bucket[i][2]) : i \in 1..Len(bucket)}

(* What the code does when it may look at the head of queue q, given the durable state: drains with
   nothing to upload finish at once (a flush is then answered), the first other one starts an upload. *)
RECURSIVE Run(_, _, _)
Run(q, p, ans) ==
  IF q = <<>> THEN [q |-> q, stage |-> "none", snap |-> <<>>, ans |-> ans]
  ELSE IF p = <<>> THEN Run(Tail(q), p, IF Head(q) = 0 THEN ans ELSE ans \cup {Head(q)})
  ELSE [q |-> q, stage |-> IF meta THEN "chunk" ELSE "meta", snap |-> Take(p), ans |-> ans]

(* starts says whether the running drain is a new one; se is the durable session then *)
Apply(r, starts, se) ==
  /\ queue' = r.q /\ stage' = r.stage /\ snap' = r.snap /\ answered' = r.ans
  /\ IF ~starts THEN UNCHANGED <<cur, nsess>>
     ELSE IF r.stage = "none" THEN cur' = 0 /\ UNCHANGED nsess
     ELSE IF se = 0 THEN cur' = nsess + 1 /\ nsess' = nsess + 1
     ELSE cur' = se /\ UNCHANGED nsess

Tick(a) == act' = a /\ len' = len + 1 /\ len < MaxLen
Step(a) == Tick(a) /\ UNCHANGED <<failed, nfault>>

(* A batch is reported: stored, alarm armed, acknowledged.  Uploads in progress are not affected. *)
Append_ == /\ nacked < MaxBatches
           /\ pend' = Append(pend, nacked + 1) /\ nacked' = nacked + 1 /\ acked' = acked \cup {nacked + 1}
           /\ alarm' = TRUE
           /\ Step([n |-> "append", b |-> nacked + 1])
           /\ UNCHANGED <<queue, stage, snap, meta, idx, sess, cur, nsess, bucket, owed, answered, nflush, ncrash, metas>>

(* A crash while a batch is being stored: it was not acknowledged and is not durable. *)
AppendCrash(at) ==
           /\ nacked < MaxBatches /\ ncrash < MaxCrash
           /\ nacked' = nacked + 1
           \* the alarm is armed before the write; one that was running is run again
           /\ alarm' = (alarm \/ at = "write" \/ \E i \in 1..Len(queue) : queue[i] = 0)
           /\ (at = "arm" => ~alarm)
           /\ ncrash' = ncrash + 1
           /\ queue' = <<>> /\ stage' = "none" /\ snap' = <<>> /\ cur' = 0
           /\ Step([n |-> "appendCrash", b |-> nacked + 1, at |-> at])
           /\ UNCHANGED <<pend, acked, meta, idx, sess, nsess, bucket, owed, answered, nflush, metas>>

Join(kind) == IF stage = "none" THEN Apply(Run(<<kind>>, pend, answered), TRUE, sess)
              ELSE queue' = Append(queue, kind) /\ UNCHANGED <<stage, snap, answered, cur, nsess>>

(* The runtime runs at most one alarm at a time. *)
Alarm == /\ alarm /\ ~(\E i \in 1..Len(queue) : queue[i] = 0)
         /\ alarm' = FALSE /\ Join(0)
         /\ Step([n |-> "alarm"])
         /\ UNCHANGED <<pend, nacked, acked, meta, idx, sess, bucket, owed, nflush, ncrash, metas>>

Flush == /\ nflush < MaxFlush
         /\ nflush' = nflush + 1 /\ owed' = Append(owed, acked)
         /\ Join(nflush + 1)
         /\ Step([n |-> "flush", f |-> nflush + 1])
         /\ UNCHANGED <<pend, nacked, acked, alarm, meta, idx, sess, bucket, ncrash, metas>>

(* The upload of metadata succeeds; the chunk follows. *)
MetaOk == /\ stage = "meta"
          /\ metas' = metas + 1 /\ stage' = "chunk"
          /\ Step([n |-> "uploaded", what |-> "meta"])
          /\ UNCHANGED <<pend, nacked, acked, alarm, queue, snap, meta, idx, sess, cur, nsess, bucket, owed, answered, nflush, ncrash>>

(* The upload of a chunk succeeds; it is committed and the next drain may run.  A flush that found
   more than one drain can take goes on until nothing that was buffered when it was asked remains. *)
ChunkOk == /\ stage = "chunk"
           /\ LET p2 == SubSeq(pend, Len(snap) + 1, Len(pend))
                  k  == Head(queue)
                  capped == Len(snap) = Cap
                  q2 == IF k # 0 /\ capped THEN Append(Tail(queue), k) ELSE Tail(queue)
                  r0 == Run(q2, p2, IF k # 0 /\ ~capped THEN answered \cup {k} ELSE answered)
              IN /\ pend' = p2
                 /\ alarm' = (alarm \/ p2 # <<>>)
                 /\ Apply([r0 EXCEPT !.stage = IF r0.stage = "meta" THEN "chunk" ELSE r0.stage], TRUE, cur)
           /\ meta' = TRUE /\ idx' = idx + 1 /\ sess' = cur
           /\ bucket' = Append(bucket, <<idx + 1, snap, cur>>)
           /\ Step([n |-> "uploaded", what |-> "chunk"])
           /\ UNCHANGED <<nacked, acked, owed, nflush, ncrash, metas>>

(* A crash while an upload is on its way.  The object may or may not have been written; an alarm that
   did not finish is run again, a flush request fails. *)
Crash(at, written) ==
   /\ stage # "none" /\ ncrash < MaxCrash
   /\ ncrash' = ncrash + 1
   /\ (at # "upload" => stage = "chunk" /\ written)
   /\ metas' = IF stage = "meta" /\ written THEN metas + 1 ELSE metas
   /\ bucket' = IF stage = "chunk" /\ written THEN Append(bucket, <<idx + 1, snap, cur>>) ELSE bucket
   /\ IF at = "delete"       \* committed, but the uploaded batches are still there
      THEN meta' = TRUE /\ idx' = idx + 1 /\ sess' = cur
      ELSE UNCHANGED <<meta, idx, sess>>
   /\ alarm' = (alarm \/ \E i \in 1..Len(queue) : queue[i] = 0)
   /\ queue' = <<>> /\ stage' = "none" /\ snap' = <<>> /\ cur' = 0
   /\ Step([n |-> "crash", at |-> at, written |-> written])
   /\ UNCHANGED <<pend, nacked, acked, owed, answered, nflush, nsess>>

(* A storage operation fails while nothing else happens to the object: the drain it was for fails, the
   next one runs; an alarm that failed is run again. *)
Fault(at) ==
   /\ stage = "chunk" /\ nfault < MaxFault /\ nfault' = nfault + 1
   /\ bucket' = Append(bucket, <<idx + 1, snap, cur>>)
   /\ IF at = "delete" THEN meta' = TRUE /\ idx' = idx + 1 /\ sess' = cur ELSE UNCHANGED <<meta, idx, sess>>
   /\ LET k == Head(queue)
      IN /\ alarm' = (alarm \/ k = 0) /\ failed' = IF k = 0 THEN failed ELSE failed \cup {k}
         /\ LET r0 == Run(Tail(queue), pend, answered)
            IN Apply([r0 EXCEPT !.stage = IF r0.stage = "none" THEN "none" ELSE IF meta' THEN "chunk" ELSE "meta"], TRUE, sess')
   /\ Tick([n |-> "fault", at |-> at])
   /\ UNCHANGED <<pend, nacked, acked, owed, nflush, ncrash, metas>>
FaultRead(k) ==
   /\ stage = "none" /\ nfault < MaxFault /\ nfault' = nfault + 1
   /\ IF k = "alarm" THEN alarm /\ UNCHANGED <<failed, nflush, owed>>
      ELSE nflush < MaxFlush /\ nflush' = nflush + 1 /\ failed' = failed \cup {nflush + 1} /\ owed' = Append(owed, acked)
   /\ Tick([n |-> "faultRead", k |-> k, f |-> nflush + 1])
   /\ UNCHANGED <<pend, nacked, acked, alarm, queue, stage, snap, meta, idx, sess, cur, nsess, bucket, answered, ncrash, metas>>

(* The object is evicted while idle and built anew from storage. *)
Evict == /\ stage = "none" /\ ncrash < MaxCrash /\ queue = <<>>
         /\ ncrash' = ncrash + 1
         /\ Step([n |-> "evict"])
         /\ UNCHANGED <<pend, nacked, acked, alarm, queue, stage, snap, meta, idx, sess, cur, nsess, bucket, owed, answered, nflush, metas>>

Next == \/ Append_ \/ (\E at \in {"arm", "write"} : AppendCrash(at))
        \/ (\E at \in {"commit", "delete"} : Fault(at)) \/ (\E k \in {"alarm", "flush"} : FaultRead(k))
        \/ Alarm \/ Flush \/ MetaOk \/ ChunkOk \/ Evict
        \/ \E at \in {"upload", "commit", "delete"}, w \in BOOLEAN : Crash(at, w)

Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(MetaOk) /\ WF_vars(ChunkOk) /\ WF_vars(Alarm)

(* ---------------------------------------------------------------- properties *)
TypeOK == /\ stage \in {"none", "meta", "chunk"} /\ Len(bucket) \leq 2 * MaxBatches + MaxCrash + MaxFault
          /\ acked \subseteq 1..nacked
(* no acknowledged batch is ever lost *)
NoLoss == \A b \in acked : b \in ToSet(pend) \/ b \in Uploaded
(* what is pending will be uploaded without another report *)
NoStranding == pend # <<>> => (alarm \/ stage # "none")
Occurrences(b) == Cardinality({i \in 1..Len(bucket) : b \in ToSet(bucket[i][2])})
(* without crashes every batch is uploaded at most once, in arrival order, under fresh chunk numbers *)
ExactlyOnce == ncrash + nfault = 0 => \A b \in 1..nacked : Occurrences(b) \leq 1
AtMostPerCrash == \A b \in 1..nacked : Occurrences(b) \leq 1 + ncrash + nfault
InOrder == ncrash + nfault = 0 => LET all == FlattenSeq([i \in 1..Len(bucket) |-> bucket[i][2]])
                         IN \A i, j \in 1..Len(all) : i < j => all[i] < all[j]
OneSession == ncrash + nfault = 0 => nsess \leq 1
FreshNumbers == ncrash + nfault = 0 => \A i \in 1..Len(bucket) : bucket[i][1] = i
(* an object is only ever overwritten with a superset of its contents *)
OverwriteKeeps == \A i, j \in 1..Len(bucket) : (i < j /\ bucket[i][1] = bucket[j][1] /\ bucket[i][3] = bucket[j][3]) => ToSet(bucket[i][2]) \subseteq ToSet(bucket[j][2])
(* an answered flush left nothing behind that was acknowledged before it *)
FlushComplete == \A f \in answered : owed[f] \subseteq Uploaded
(* eventually everything acknowledged is uploaded *)
AllUploaded == <>[](acked \subseteq Uploaded \/ ENABLED Append_)
Drained == [](\A b \in 1..MaxBatches : b \in acked => <>(b \in Uploaded))
=============================================================================
