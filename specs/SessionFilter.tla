---------------------------- MODULE SessionFilter ----------------------------
(***************************************************************************)
(* X02.  Values offered as a session filter, built up bit by bit, and what *)
(* is said about each.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Mode,   \* "value", "file"
          Outers, Types, Lists, Items, Fills, MaxItems

VARIABLES outer, type, list, items, count, act
vars == <<outer, type, list, items, count, act>>
View == <<outer, type, list, items, count>>
Rec == [outer |-> outer, type |-> type, list |-> list, items |-> items, count |-> count, ok |-> outer \in {"object", "text"} /\ type = "known" /\ list = "list" /\ count >= 1 /\ count <= 500 /\ \A i \in DOMAIN items : items[i] \in {"plain", "one", "longest", "fill", "odd", "blank"}]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == outer \in Outers /\ type = "none" /\ list = "none" /\ items = <<>> /\ count = 0 /\ act = [n |-> "init"]
GiveType(t) == outer \in {"object", "text"} /\ type = "none" /\ type' = t /\ act' = [n |-> "type"] /\ UNCHANGED <<outer, list, items, count>>
GiveList(l) == outer \in {"object", "text"} /\ list = "none" /\ list' = l /\ act' = [n |-> "list"] /\ UNCHANGED <<outer, type, items, count>>
Push(i) == list = "list" /\ Len(items) < MaxItems /\ items' = Append(items, i) /\ count' = count + 1 /\ act' = [n |-> "push"] /\ UNCHANGED <<outer, type, list>>
Fill(n) == list = "list" /\ Len(items) < MaxItems /\ items' = Append(items, "fill") /\ count' = count + n /\ act' = [n |-> "fill", by |-> n] /\ UNCHANGED <<outer, type, list>>
Next == (\E t \in Types : GiveType(t)) \/ (\E l \in Lists : GiveList(l)) \/ (\E i \in Items : Push(i)) \/ (\E n \in Fills : Fill(n))
Spec == Init /\ [][Next]_vars
Bounds == Rec.ok => count \in 1..500
=============================================================================
