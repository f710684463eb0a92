------------------------------ MODULE Snapshots ------------------------------
(***************************************************************************)
(* C02.  Snapshot files of a test run (base and head), or of one list, are *)
(* downloaded side by side and assembled.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,   \* "list", "run"
          Splits, \* how many of the files are of the base
          N, L,   \* files; how many of a list may be downloaded at once
          Good, Bad, \* how a download may end
          Which,  \* "all", or only the "ends" of those under way
          MaxBad

VARIABLES nb, asked, st, out, bad, act
vars == <<nb, asked, st, out, bad, act>>
View == <<nb, asked, st, out, bad>>
Rec == [nb |-> nb, asked |-> asked, st |-> st, out |-> out, bad |-> bad]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Files == 1..N
ListOf(i) == IF i <= nb THEN 1 ELSE 2
Active(s, l) == Cardinality({i \in Files : s[i] = "going" /\ ListOf(i) = l})
(* as many as may run are running, in order *)
Fill(s) == [i \in Files |-> IF s[i] = "queued" /\ Active(s, ListOf(i)) + Cardinality({j \in Files : j < i /\ s[j] = "queued" /\ ListOf(j) = ListOf(i)}) < L THEN "going" ELSE s[i]]
Queued == [i \in Files |-> "queued"]
Init == /\ nb \in Splits /\ asked = (Mode = "run") /\ st = (IF Mode = "run" THEN Queued ELSE Fill(Queued)) /\ out = (IF N = 0 /\ Mode = "list" THEN "ok" ELSE "pending") /\ bad = 0 /\ act = [n |-> "init"]
Listed(k) == /\ asked /\ asked' = FALSE /\ act' = [n |-> "listed", k |-> k] /\ UNCHANGED <<nb, bad>>
             /\ IF k = "ok" THEN st' = Fill(st) /\ out' = (IF N = 0 THEN "ok" ELSE "pending") ELSE out' = "error" /\ UNCHANGED st
Ends(i) == Which = "all" \/ (\A j \in Files : st[j] = "going" => j <= i) \/ (\A j \in Files : st[j] = "going" => j >= i)
Done(i, k) ==
  /\ st[i] = "going" /\ Ends(i) /\ act' = [n |-> "done", i |-> i, k |-> k] /\ UNCHANGED <<nb, asked>>
  /\ IF k \in Good THEN st' = Fill([st EXCEPT ![i] = k]) /\ UNCHANGED bad ELSE bad < MaxBad /\ bad' = bad + 1 /\ st' = Fill([st EXCEPT ![i] = k])
  /\ out' = (IF out = "error" \/ k \notin Good THEN "error" ELSE IF \A j \in Files : st'[j] \in Good THEN "ok" ELSE "pending")
Next == (\E k \in {"ok", "refused"} : Listed(k)) \/ \E i \in Files : \E k \in Good \cup Bad : Done(i, k)
Spec == Init /\ [][Next]_vars
Bounded == \A l \in {1, 2} : Active(st, l) <= L
Complete == out = "ok" => ~asked /\ \A i \in Files : st[i] \in Good
NothingIdle == ~asked /\ (Mode = "list" \/ out # "error") => \A l \in {1, 2} : Active(st, l) = L \/ \A i \in Files : ListOf(i) = l => st[i] # "queued"
=============================================================================
