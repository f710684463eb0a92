---------------------------- MODULE EdgeVirtual ----------------------------
(***************************************************************************)
(* E05.  Clock readings and random draws of replayed requests, interleaved *)
(* with recorded, unconfigured and background code in the same process.    *)
(* The value of a draw is abstract: <<session, caller, position, kind>>.   *)
(* Equal ones must be equal values in the code and unequal ones unequal,   *)
(* in all behaviours together.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ctxs, Hows, Paths, Kinds, Bursts, MaxLen,
          MaxCaptures   \* after this many draws call sites are not told apart any more

(* a path is the way in which a call site is reached: site "f" or "g", by route "a", "b" or "c" *)
Site(p) == IF p \in {"fa", "fb", "fc"} THEN "f" ELSE "g"
Route(p) == IF p \in {"fa", "ga"} THEN "a" ELSE IF p \in {"fb", "gb"} THEN "b" ELSE "c"
VARIABLES t,       \* seconds by which the real clock has moved
          seqs,    \* per context: the sequences opened so far, [site, route, id, pos]
          draws,   \* per context: number of draws
          len, act
vars == <<t, seqs, draws, len, act>>
Rec == [t |-> t, seqs |-> seqs, draws |-> draws]
View == <<t, seqs, draws>>
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Session == [A1 |-> "sa", A2 |-> "sa", B |-> "sb", Z |-> "sz", rec |-> "none", off |-> "none", plain |-> "none"]
Replayed(c) == Session[c] # "none"
Anchor == [sa |-> "anchored", sb |-> "unanchored", sz |-> "epoch"]
Cost(k) == CASE k = "random" -> 1 [] k = "uuid" -> 31 [] k = "bytes" -> 8 [] k = "view" -> 8 [] k = "big" -> 16

Init == t = 0 /\ seqs = [c \in Ctxs |-> <<>>] /\ draws = [c \in Ctxs |-> 0] /\ len = 0 /\ act = [n |-> "init"]
Step(a) == len < MaxLen /\ len' = len + 1 /\ act' = a

Read(c, h) == Step([n |-> "read", ctx |-> c, how |-> h, v |-> IF Replayed(c) THEN Anchor[Session[c]] ELSE "real"]) /\ UNCHANGED <<t, seqs, draws>>
(* a loop that waits for the clock to move: it ends *)
Spin(c) == Replayed(c) /\ Step([n |-> "spin", ctx |-> c]) /\ UNCHANGED <<t, seqs, draws>>
Tick == t < 2 /\ Step([n |-> "tick"]) /\ t' = t + 1 /\ UNCHANGED <<seqs, draws>>

Known(c, s, r) == {i \in DOMAIN seqs[c] : seqs[c][i].site = s /\ seqs[c][i].route = r}
Ids(c, s) == Cardinality({i \in DOMAIN seqs[c] : seqs[c][i].site = s})
(* n draws of the same kind in a row at the end of one path *)
DrawN(c, p, k, n) ==
  IF ~Replayed(c) THEN Step([n |-> "draw", ctx |-> c, path |-> p, kind |-> k, times |-> n, v |-> "native"]) /\ UNCHANGED <<t, seqs, draws>>
  ELSE LET apart == draws[c] < MaxCaptures
           s == IF apart THEN Site(p) ELSE "unknown"
           r == IF apart THEN Route(p) ELSE "unknown"
           new == Known(c, s, r) = {}
           at == IF new THEN Len(seqs[c]) + 1 ELSE CHOOSE i \in Known(c, s, r) : TRUE
           id == IF new THEN Ids(c, s) ELSE seqs[c][at].id
           pos == IF new THEN 0 ELSE seqs[c][at].pos
       IN /\ draws[c] + n <= MaxCaptures \/ ~apart
          /\ Step([n |-> "draw", ctx |-> c, path |-> p, kind |-> k, times |-> n, v |-> [session |-> Session[c], id |-> id, pos |-> pos + (n - 1) * Cost(k)]])
          /\ draws' = [draws EXCEPT ![c] = IF @ + n > MaxCaptures THEN MaxCaptures ELSE @ + n]
          /\ seqs' = [seqs EXCEPT ![c] = IF new THEN Append(@, [site |-> s, route |-> r, id |-> id, pos |-> n * Cost(k)]) ELSE [@ EXCEPT ![at].pos = pos + n * Cost(k)]]
          /\ UNCHANGED t

Next == \/ \E c \in Ctxs : \/ \E h \in Hows \ {"spin"} : Read(c, h)
                           \/ ("spin" \in Hows /\ Spin(c))
                           \/ \E p \in Paths, k \in Kinds : DrawN(c, p, k, 1) \/ \E n \in Bursts : DrawN(c, p, k, n)
        \/ Tick
Spec == Init /\ [][Next]_vars

(* the routes of one site have ids of their own; one context never influences another *)
SharedHelpersDiffer == \A c \in Ctxs : \A i, j \in DOMAIN seqs[c] : i # j /\ seqs[c][i].site = seqs[c][j].site => seqs[c][i].id # seqs[c][j].id
OnlyReplays == \A c \in Ctxs : ~Replayed(c) => seqs[c] = <<>>
Isolated == [][\A c \in Ctxs : seqs'[c] # seqs[c] => act'.ctx = c]_vars
=============================================================================
