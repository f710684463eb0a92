------------------------------ MODULE DomDiffs ------------------------------
(***************************************************************************)
(* W01.  Collecting the DOM diffs of replay comparisons: the comparisons   *)
(* are taken in order, the screenshots of one side by side, with at most   *)
(* `Max' requests under way.  Every screenshot gets exactly one outcome.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Files,      \* the state of a comparison's document: "ok", "none", "cut", "notlist", "nulldoc", "unsafe"
          Kinds,      \* of the entries of a document
          Lens,       \* how many entries
          NP,         \* comparisons
          Max,        \* requests under way
          Answers, Fulls,
          InOrder     \* the oldest request is answered first

Fetched == {"diff", "flake", "size", "new", "none", "variant"}
AtOnce(k) == CASE k \in {"noid", "null", "badname", "unknown", "mboth", "text", "bad0", "bad1", "bad2", "bad3", "bad4"} -> "ignored"
               [] k = "mbase" -> "only-in-head" [] k = "mhead" -> "only-in-base"
               [] k \in {"nodiff", "redactsame"} -> "identical"
               [] k = "redact" -> "skipped-unsupported"
               [] k \in Fetched -> "queued"
Over == {"ignored", "only-in-head", "only-in-base", "identical", "skipped-unsupported", "skipped-error", "diff", "diffonly"}

VARIABLES pairs,  \* [file, shots]
          at,     \* the comparison being worked on; 0 before, NP + 1 after
          out,    \* what has become of its entries, of each comparison's
          act
vars == <<pairs, at, out, act>>
View == <<pairs, at, out>>
Rec == [pairs |-> pairs, at |-> at, out |-> out]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Lists == UNION {[1..n -> Kinds] : n \in Lens}
Some == CHOOSE k \in Kinds : TRUE
PairSet == {[file |-> f, shots |-> s] : f \in (Files \cap {"ok"}), s \in Lists} \cup {[file |-> f, shots |-> <<Some>>] : f \in Files \ {"ok"}}
Init == /\ pairs \in [1..NP -> PairSet] /\ at = 0 /\ out = [p \in 1..NP |-> <<>>] /\ act = [n |-> "init"]

Busy(o) == Cardinality({i \in DOMAIN o : o[i] \in {"req", "full"}})
(* as many of the waiting ones as there is room for *)
Fill(o) == [i \in DOMAIN o |-> IF o[i] = "queued" /\ Busy(o) + Cardinality({j \in DOMAIN o : j <= i /\ o[j] = "queued"}) <= Max THEN "req" ELSE o[i]]
Started(p) == IF pairs[p].file = "ok" THEN Fill([i \in DOMAIN pairs[p].shots |-> AtOnce(pairs[p].shots[i])]) ELSE <<>>
Done(o) == \A i \in DOMAIN o : o[i] \in Over
(* the comparisons from p on, until one has something to wait for *)
RECURSIVE Proceed(_, _)
Proceed(p, o) == IF p > NP THEN <<p, o>>
                 ELSE LET o2 == [o EXCEPT ![p] = Started(p)] IN IF Done(o2[p]) THEN Proceed(p + 1, o2) ELSE <<p, o2>>
Goto(p, o) == LET r == Proceed(p, o) IN at' = r[1] /\ out' = r[2]
Begin == at = 0 /\ Goto(1, out) /\ act' = [n |-> "begin"] /\ UNCHANGED pairs
Set(i, v) == LET o == [out EXCEPT ![at] = Fill([out[at] EXCEPT ![i] = v])] IN IF Done(o[at]) THEN Goto(at + 1, o) ELSE at' = at /\ out' = o
First(i) == InOrder => \A j \in DOMAIN out[at] : j < i => out[at][j] \notin {"req", "full"}
Answer(i, a) == /\ out[at][i] = "req" /\ First(i) /\ act' = [n |-> "answer", i |-> i, a |-> a] /\ UNCHANGED pairs
                /\ Set(i, CASE a \in {"diff", "many"} -> "full" [] a \in {"zero", "empty"} -> "identical" [] a \in {"fail", "text", "junk", "disk", "null"} -> "skipped-error")
Full(i, a) == /\ out[at][i] = "full" /\ First(i) /\ act' = [n |-> "full", i |-> i, a |-> a] /\ UNCHANGED pairs
              /\ Set(i, IF a = "ok" THEN "diff" ELSE "diffonly")
Next == Begin \/ (at \in 1..NP /\ \E i \in DOMAIN out[at] : (\E a \in Answers : Answer(i, a)) \/ (\E a \in Fulls : Full(i, a)))
Spec == Init /\ [][Next]_vars

Bound == at \in 1..NP => Busy(out[at]) <= Max
(* nobody waits while there is room *)
NoIdleRoom == at \in 1..NP /\ (\E i \in DOMAIN out[at] : out[at][i] = "queued") => Busy(out[at]) = Max
EveryOneHasAnOutcome == (at = NP + 1) => (\A p \in 1..NP : IF pairs[p].file = "ok" THEN Len(out[p]) = Len(pairs[p].shots) /\ Done(out[p]) ELSE out[p] = <<>>)
OutcomeIsFinal == [][\A p \in 1..NP : \A i \in DOMAIN out[p] : out[p][i] \in Over => out'[p][i] = out[p][i]]_vars
InTurn == \A p \in 1..NP : p < at => Done(out[p])
Ends == <>[](at = NP + 1)
=============================================================================
