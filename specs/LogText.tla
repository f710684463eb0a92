------------------------------ MODULE LogText ------------------------------
(***************************************************************************)
(* W02.  Replay logs, written message by message: which of them carry a    *)
(* credential, and in which form.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Forms, MaxSaid
VARIABLES said, act
vars == <<said, act>>
View == said
Rec == [said |-> said]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Init == said = <<>> /\ act = [n |-> "init"]
Say(f) == Len(said) < MaxSaid /\ said' = Append(said, f) /\ act' = [n |-> "say", f |-> f]
Next == \E f \in Forms : Say(f)
Spec == Init /\ [][Next]_vars
Grows == [][Len(said') = Len(said) + 1]_vars
=============================================================================
