---------------------------- MODULE CodexConfig ----------------------------
(***************************************************************************)
(* K03.  A TOML configuration is given the product's server: whatever was  *)
(* there under that name goes, whatever else there was stays, and what     *)
(* cannot be rewritten safely is refused and left as it is.  Text that     *)
(* only looks like a table - inside a string or an array - is neither.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Root,     \* assignments before the first table
          Tables,   \* unrelated tables
          Met,      \* tables of the product's server, however spelled
          Canonical, \* those of them that are what they should be
          Blockers, \* definitions that cannot be rewritten, or that nothing can be added to
          Styles, MaxItems, MaxMerges

VARIABLES doc, style, merges, result, act
vars == <<doc, style, merges, result, act>>
View == <<doc, style, merges, result>>
Rec == [doc |-> doc, style |-> style, merges |-> merges, result |-> result]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

\* pairs that no valid file has
Clashes == {<<"dotother", "servers">>, <<"servers", "serversmet">>, <<"servers", "serversdot">>}
Init == doc = <<>> /\ style \in Styles /\ merges = 0 /\ result = "" /\ act = [n |-> "init"]
In(x) == \E i \in 1..Len(doc) : doc[i] = x
Add(x) ==
  /\ Len(doc) < MaxItems /\ merges = 0 /\ (x \notin Met => ~In(x)) /\ ~In("open") /\ doc' = Append(doc, x) /\ act' = [n |-> "add", x |-> x] /\ UNCHANGED <<style, merges, result>>
  /\ x \in Root => \A i \in 1..Len(doc) : doc[i] \in Root
  /\ \A i \in 1..Len(doc) : <<doc[i], x>> \notin Clashes /\ <<x, doc[i]>> \notin Clashes
Mine == SelectSeq(doc, LAMBDA x : x \in Met)
Rest == SelectSeq(doc, LAMBDA x : x \notin Met)
Refused == \E i \in 1..Len(doc) : doc[i] \in Blockers
Merge ==
  /\ merges < MaxMerges /\ merges' = merges + 1 /\ act' = [n |-> "merge"] /\ UNCHANGED style
  /\ IF Refused THEN result' = "refused" /\ UNCHANGED doc
     ELSE IF Len(Mine) = 1 /\ Mine[1] \in Canonical THEN result' = "kept" /\ UNCHANGED doc
     ELSE result' = "written" /\ doc' = Append(Rest, "M")
Next == (\E x \in Root \cup Tables \cup Met : Add(x)) \/ Merge
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
CanonicalOnly == result \in {"kept", "written"} => (Len(Mine) = 1 /\ Mine[1] \in Canonical)
RestKept == [][(merges' > merges) => SelectSeq(doc', LAMBDA x : x \notin Met) = Rest]_vars
Idempotent == [][(merges' > merges /\ result \in {"kept", "written"}) => result' = "kept"]_vars
RefusedUntouched == [][(merges' > merges /\ result' = "refused") => doc' = doc]_vars
=============================================================================
