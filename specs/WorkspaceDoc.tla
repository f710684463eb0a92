---------------------------- MODULE WorkspaceDoc ----------------------------
(***************************************************************************)
(* W02.  Recorded documents, built place by place, and which of their      *)
(* values are secrets: a place is a chain of property names and lists that *)
(* leads to a leaf.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Root,     \* the name the root itself goes by ("" : none)
          Names, Leaves, Depths, MaxPlaces

VARIABLES places, act
vars == <<places, act>>
View == places

Pairs == {"headers", "cookies", "localStorageEntries", "sessionStorageEntries", "extraCookies", "extraLocalStorageEntries", "extraSessionStorageEntries", "requestHeaders", "responseHeaders"}
Tokens == {"recordingToken", "recording_token"}
Attributes == {"http.request.header.cookie", "http.request.header.x.Key_1~", "http.response.header.set-cookie"}
Stores == {"localStorage", "sessionStorage"}
Valued == {"pair", "keypair", "static", "nothing"}   \* leaves that are objects with a `value'

ListOfPairs(key, within) == key \in Pairs \/ (key = "state" /\ within \in Stores)
(* what becomes of the leaf at the end of chain c: "kept"; "value": its value is replaced; "inner": the value's own value;
   "whole": all of it, "up": the value that contains it, that many steps above *)
RECURSIVE Fate(_, _, _, _)
Fate(c, leaf, key, within) ==
  IF c = <<>> THEN (IF key \in Tokens /\ leaf = "text" THEN "whole" ELSE IF key \in Attributes /\ leaf = "list" THEN "entries" ELSE "kept")
  ELSE LET rest == SubSeq(c, 2, Len(c)) IN
       IF c[1] # "[]" THEN Fate(rest, leaf, c[1], key)
       ELSE IF key \in Attributes THEN (IF rest = <<>> THEN "whole" ELSE "entry")
       ELSE IF key = "customRequestHeaders" THEN
              (IF rest = <<>> /\ leaf = "static" THEN "inner" ELSE IF Len(rest) = 1 /\ rest[1] = "value" /\ leaf \in Valued THEN "value" ELSE IF Len(rest) >= 2 /\ rest[1] = "value" /\ rest[2] = "value" THEN "property" ELSE Fate(rest, leaf, "", ""))
       ELSE IF ListOfPairs(key, within) THEN
              (IF rest = <<>> /\ leaf \in Valued THEN "value" ELSE IF rest # <<>> /\ rest[1] = "value" THEN "property" ELSE Fate(rest, leaf, "", ""))
       ELSE Fate(rest, leaf, "", "")
FateOf(p) == Fate(p.chain, p.leaf, Root, "")
Rec == [places |-> places, fates |-> [i \in DOMAIN places |-> FateOf(places[i])]]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Chains == UNION {[1..d -> Names] : d \in Depths}
Init == places = <<>> /\ act = [n |-> "init"]
Put == /\ Len(places) < MaxPlaces
       /\ \E c \in Chains, l \in Leaves : places' = Append(places, [chain |-> c, leaf |-> l]) /\ act' = [n |-> "put", chain |-> c, leaf |-> l]
Next == Put
Spec == Init /\ [][Next]_vars

(* every value directly in a list of name/value pairs is replaced, at any depth *)
NoPairSurvives == \A i \in DOMAIN places : LET p == places[i] n == Len(p.chain) IN
   (n >= 2 /\ p.chain[n] = "[]" /\ p.chain[n - 1] \in Pairs /\ p.leaf \in {"pair", "keypair"}) => FateOf(p) # "kept"
(* and nothing else is touched that no such name leads to *)
Harmless == \A i \in DOMAIN places : LET p == places[i] IN
   (\A j \in DOMAIN p.chain : p.chain[j] \notin Pairs \cup Tokens \cup Attributes \cup {"state", "customRequestHeaders"}) /\ Root = "" => FateOf(p) = "kept"
=============================================================================
