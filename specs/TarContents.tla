---------------------------- MODULE TarContents ----------------------------
(***************************************************************************)
(* D02.  What an extracted archive leaves behind, entry by entry.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Flows,   \* "raw", "gz"
          Widths,  \* degrees of parallelism
          Entries, \* the kinds of entries
          L        \* how many an archive has at most

VARIABLES flow, width, list, phase, act
vars == <<flow, width, list, phase, act>>
View == <<flow, width, list, phase>>

Regular  == {"plain", "dot", "deep", "dots", "dotsdir", "dotsonly", "empty", "big", "zeros", "beside", "contiguous", "long", "unicode", "space", "old", "exec", "sibling", "many"}
Dirs     == {"dir", "dotdir"}
Escaping == {"up", "deepup", "abs", "updir", "upslash"}
Links    == {"symlink", "symfile", "hardout", "hardin", "symup"}
Special  == {"device", "fifo"}
Through  == {"through"} \* a file beneath the name of a link of the archive
Oblique  == {"oblique"} \* a parent step that stays within
All == Regular \cup Dirs \cup Escaping \cup Links \cup Special \cup Through \cup Oblique
Range(f) == {f[i] : i \in DOMAIN f}

(* "yes": exactly as in the archive; "no": nowhere; "maybe": nowhere or inside *)
Fate(e) ==
  IF e \in Regular \cup Dirs THEN "yes"
  ELSE IF e \in Escaping THEN IF e = "abs" /\ width = 1 THEN "maybe" ELSE "no"
  ELSE IF e \in Special THEN "no"
  ELSE IF e \in Links THEN IF width = 1 THEN "maybe" ELSE "no"
  ELSE IF e \in Through THEN IF width = 1 THEN "maybe" ELSE "yes"
  ELSE "maybe"
Rec == [flow |-> flow, width |-> width, phase |-> phase, list |-> [i \in DOMAIN list |-> [e |-> list[i], fate |-> Fate(list[i])]]]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == flow \in Flows /\ width \in Widths /\ list = <<>> /\ phase = "packing" /\ act = [n |-> "init"]
Add(e) == phase = "packing" /\ Len(list) < L /\ e \notin Range(list) /\ list' = Append(list, e) /\ act' = [n |-> "add", e |-> e] /\ UNCHANGED <<flow, width, phase>>
Extract == phase = "packing" /\ list # <<>> /\ phase' = "extracted" /\ act' = [n |-> "extract"] /\ UNCHANGED <<flow, width, list>>
Next == Extract \/ \E e \in Entries : Add(e)
Spec == Init /\ [][Next]_vars
NothingOutside == \A i \in DOMAIN list : list[i] \in Escaping => Fate(list[i]) # "yes"
Complete == \A i \in DOMAIN list : list[i] \in Regular => Fate(list[i]) = "yes"
Catalogued == Entries \subseteq All
=============================================================================
