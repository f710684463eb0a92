----------------------------- MODULE Multipart -----------------------------
(***************************************************************************)
(* U01.  A streaming multipart upload: compressed output is cut into parts *)
(* that are uploaded, at most Max at once, while the archive is still      *)
(* being read.  Sizes are bytes; Chunk is the configured part size and     *)
(* Signed the number of addresses that came with the start of the upload.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Chunk, Max, SignedSet, Feeds, Finals, Sources, MaxParts, MaxHic, Faults, MaxLen,
          Order       \* in which the parts under way are answered: "any", "first" or "last" of them

VARIABLES src, signed,
          buf,      \* bytes produced, not yet in a part
          parts,    \* [size, from, st, hic]; st: "queued", "asking" (for its address), "sending", "done", "failed"
          tar,      \* "open", "ended", "broken"
          result,   \* "pending", "completing", "done", "failed"
          len, act
vars == <<src, signed, buf, parts, tar, result, len, act>>
Rec == [src |-> src, signed |-> signed, buf |-> buf, parts |-> parts, tar |-> tar, result |-> result]
View == <<src, signed, buf, parts, tar, result>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ src \in Sources /\ signed \in SignedSet /\ buf = 0 /\ parts = <<>> /\ tar = "open" /\ result = "pending" /\ len = 0 /\ act = [n |-> "init"]
Step(a) == len < MaxLen /\ len' = len + 1 /\ act' = a /\ UNCHANGED <<src, signed>>

Active(ps) == Cardinality({i \in DOMAIN ps : ps[i].st \in {"asking", "sending"}})
Total(ps) == LET f[i \in 0..Len(ps)] == IF i = 0 THEN 0 ELSE f[i-1] + ps[i].size IN f[Len(ps)]
Part(ps, size, last) == Append(ps, [size |-> size, from |-> Total(ps), st |-> "queued", hic |-> 0, own |-> (size = Chunk /\ ~last /\ Len(ps) + 1 <= signed)])
(* parts are started in order, as many as may be under way *)
RECURSIVE Start(_)
Start(ps) ==
  LET q == {i \in DOMAIN ps : ps[i].st = "queued"} IN
  IF q = {} \/ Active(ps) >= Max THEN ps
  ELSE LET i == CHOOSE i \in q : \A j \in q : i <= j IN Start([ps EXCEPT ![i].st = IF ps[i].own THEN "sending" ELSE "asking"])
(* the upload as a whole, once the archive has been read *)
Outcome(ps, t) ==
  CASE result # "pending" -> result
    [] t = "broken" -> "failed"
    [] t = "open" -> "pending"
    [] \E i \in DOMAIN ps : ps[i].st = "failed" -> "failed"
    [] \A i \in DOMAIN ps : ps[i].st = "done" -> "completing"
    [] OTHER -> "pending"
Settle(ps, t) == LET p2 == Start(ps) IN parts' = p2 /\ result' = Outcome(p2, t)

Feed(n) ==
  /\ tar = "open" /\ Len(parts) < MaxParts /\ Step([n |-> "feed", size |-> n]) /\ tar' = tar
  /\ IF n > 0 /\ buf + n >= Chunk
     THEN buf' = buf + n - Chunk /\ Settle(Part(parts, Chunk, FALSE), tar)
     ELSE buf' = buf + n /\ UNCHANGED <<parts, result>>
End(n) ==
  /\ tar = "open" /\ Step([n |-> "end", size |-> n]) /\ tar' = "ended" /\ buf' = 0
  /\ buf + n > 0 \/ Len(parts) > 0
  /\ IF buf + n > 0 THEN Settle(Part(parts, buf + n, TRUE), "ended") ELSE Settle(parts, "ended")
Break ==
  /\ tar = "open" /\ "break" \in Faults /\ Step([n |-> "break"]) /\ tar' = "broken" /\ UNCHANGED buf /\ Settle(parts, "broken")

Turn(i) == CASE Order = "first" -> \A j \in 1..(i-1) : parts[j].st \in {"done", "failed"} [] Order = "last" -> \A j \in (i+1)..Len(parts) : parts[j].st \notin {"asking", "sending"} [] OTHER -> TRUE
Set(i, st) == [parts EXCEPT ![i].st = st]
Address(i) == parts[i].st = "asking" /\ Step([n |-> "address", i |-> i]) /\ Settle(Set(i, "sending"), tar) /\ UNCHANGED <<buf, tar>>
Refuse(i) == "refuse" \in Faults /\ parts[i].st = "asking" /\ Step([n |-> "refuse", i |-> i]) /\ Settle(Set(i, "failed"), tar) /\ UNCHANGED <<buf, tar>>
Stored(i) == parts[i].st = "sending" /\ Step([n |-> "stored", i |-> i]) /\ Settle(Set(i, "done"), tar) /\ UNCHANGED <<buf, tar>>
Rejected(i) == "reject" \in Faults /\ parts[i].st = "sending" /\ Step([n |-> "reject", i |-> i]) /\ Settle(Set(i, "failed"), tar) /\ UNCHANGED <<buf, tar>>
(* a passing failure: the part is sent again, five times in all *)
Hiccup(i) ==
  /\ parts[i].st = "sending" /\ parts[i].hic < MaxHic /\ Step([n |-> "hiccup", i |-> i, k |-> parts[i].hic + 1])
  /\ UNCHANGED <<buf, tar>>
  /\ Settle(IF parts[i].hic = 4 THEN Set(i, "failed") ELSE [parts EXCEPT ![i].hic = @ + 1], tar)
Completed == result = "completing" /\ Step([n |-> "completed"]) /\ result' = "done" /\ UNCHANGED <<buf, tar, parts>>

Next == \/ \E n \in Feeds : Feed(n)
        \/ \E n \in Finals : End(n)
        \/ Break \/ Completed
        \/ \E i \in DOMAIN parts : Turn(i) /\ (Address(i) \/ Refuse(i) \/ Stored(i) \/ Rejected(i) \/ Hiccup(i))
Spec == Init /\ [][Next]_vars

Contiguous == \A i \in DOMAIN parts : parts[i].from = (IF i = 1 THEN 0 ELSE parts[i-1].from + parts[i-1].size)
FullSize == \A i \in DOMAIN parts : i < Len(parts) \/ tar = "open" => parts[i].size = Chunk
Bounded == Active(parts) <= Max
OnlyComplete == result \in {"completing", "done"} => tar = "ended" /\ buf = 0 /\ \A i \in DOMAIN parts : parts[i].st = "done"
OneAddressEach == \A i \in DOMAIN parts : parts[i].own => i <= signed
=============================================================================
