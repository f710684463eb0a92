---------------------------- MODULE LocalEdits ----------------------------
(***************************************************************************)
(* G02.  Which lines of the base local changes are said to edit.  A file   *)
(* is the sequence of its lines: the number of a line of the base, or 0    *)
(* for a line that is new.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Files,    \* files of the base
          N,        \* lines each of them has
          News,     \* files that are not in the base
          MaxEdits, Wheres, Bigs, Acts,
          Confs     \* how the user has configured git to show diffs, which must not matter

VARIABLES conf, where,    \* the directory the tool runs in
          big,      \* lines are very long
          w,        \* the files of the working tree; a file that is deleted is "gone"
          new,      \* new files that git knows of
          mid,      \* the files at the commit that was made after the base, if any
          edits, committed, act
vars == <<conf, where, big, w, new, mid, edits, committed, act>>
View == <<conf, where, big, w, new, mid, edits, committed>>

Gone == <<N + 9>>  \* no file has such a line
Lines(s) == IF s = Gone THEN {} ELSE {s[i] : i \in DOMAIN s} \ {0}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the lines of the base around place i of a file *)
Before(s, i) == Max({0} \cup {s[j] : j \in 1..(i - 1)})
After(s, i) == Min({N + 1} \cup ({s[j] : j \in (i + 1)..Len(s)} \ {0}))
New(s) == IF s = Gone THEN {} ELSE {i \in DOMAIN s : s[i] = 0}
Deleted(s) == (1..N) \ Lines(s)
(* a line that was only added belongs to the lines around it: to the ones before and after it, unless it is above the first *)
Pure(s) == {i \in New(s) : After(s, i) = Before(s, i) + 1}
Must(s) == Deleted(s) \cup (UNION {{Before(s, i), After(s, i)} : i \in {k \in Pure(s) : Before(s, k) > 0}} \cap (1..N))
(* nothing but the changed lines and those around added ones *)
May(s) == Must(s) \cup UNION {{Before(s, i), After(s, i)} : i \in New(s)}
Changed(s) == s # [i \in 1..N |-> i]
Want == [f \in Files |-> [changed |-> Changed(w[f]), must |-> Must(w[f]), may |-> May(w[f]),
                        since |-> committed /\ w[f] # mid[f]]]
Rec == [conf |-> conf, where |-> where, big |-> big, w |-> w, new |-> new, committed |-> committed, want |-> Want]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == conf \in Confs /\ where \in Wheres /\ big \in Bigs /\ w = [f \in Files |-> [i \in 1..N |-> i]] /\ new = {} /\ mid = w /\ edits = 0 /\ committed = FALSE /\ act = [n |-> "init"]
Can(a) == a \in Acts /\ edits < MaxEdits /\ edits' = edits + 1
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i) == SubSeq(s, 1, i) \o <<0>> \o SubSeq(s, i + 1, Len(s))
Delete(f, i) == Can("delete") /\ w[f] # Gone /\ i \in DOMAIN w[f] /\ w[f][i] # 0 /\ w' = [w EXCEPT ![f] = Remove(w[f], i)] /\ act' = [n |-> "delete", f |-> f, i |-> i] /\ UNCHANGED <<conf, where, big, new, mid, committed>>
Add(f, i) == Can("add") /\ w[f] # Gone /\ i <= Len(w[f]) /\ w' = [w EXCEPT ![f] = Insert(w[f], i)] /\ act' = [n |-> "add", f |-> f, i |-> i] /\ UNCHANGED <<conf, where, big, new, mid, committed>>
Replace(f, i) == Can("replace") /\ w[f] # Gone /\ i \in DOMAIN w[f] /\ w[f][i] # 0 /\ w' = [w EXCEPT ![f][i] = 0] /\ act' = [n |-> "replace", f |-> f, i |-> i] /\ UNCHANGED <<conf, where, big, new, mid, committed>>
Unlink(f) == Can("unlink") /\ w[f] # Gone /\ w' = [w EXCEPT ![f] = Gone] /\ act' = [n |-> "unlink", f |-> f] /\ UNCHANGED <<conf, where, big, new, mid, committed>>
Create(f) == Can("create") /\ f \notin new /\ new' = new \cup {f} /\ act' = [n |-> "create", f |-> f] /\ UNCHANGED <<conf, where, big, w, mid, committed>>
(* changes that were committed after the base are local changes like any other *)
Commit == Can("commit") /\ ~committed /\ (new # {} \/ \E f \in Files : Changed(w[f])) /\ committed' = TRUE /\ mid' = w /\ act' = [n |-> "commit"] /\ UNCHANGED <<conf, where, big, w, new>>
Next == (\E f \in Files : (\E i \in 1..(N + MaxEdits) : Delete(f, i) \/ Replace(f, i)) \/ (\E i \in 0..(N + MaxEdits) : Add(f, i)) \/ Unlink(f)) \/ (\E f \in News : Create(f)) \/ Commit
Spec == Init /\ [][Next]_vars

(* lines keep their order, and whatever changed is asked about *)
Ordered == \A f \in Files : w[f] # Gone => \A i, j \in DOMAIN w[f] : (i < j /\ w[f][i] # 0 /\ w[f][j] # 0) => w[f][i] < w[f][j]
EditsAreSeen == \A f \in Files : Changed(w[f]) /\ Must(w[f]) = {} => \A i \in New(w[f]) : Before(w[f], i) = 0
NotMoreThanChanged == \A f \in Files : (Must(w[f]) \subseteq May(w[f])) /\ (~Changed(w[f]) => May(w[f]) = {})
(* commits matter only to who asks for the changes since then *)
CommitsChangeNothing == [][act'.n = "commit" => \A f \in Files : Want'[f].must = Want[f].must /\ Want'[f].may = Want[f].may /\ Want'[f].changed = Want[f].changed /\ ~Want'[f].since]_vars
============================================================================
