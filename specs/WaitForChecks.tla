--------------------------- MODULE WaitForChecks ---------------------------
(***************************************************************************)
(* C01.  Waiting for the test run that custom checks are reported against. *)
(* Time is in units of the polling interval.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Entries, \* "id", "commit"
          Opts,    \* "given": a budget of Given units; "default": 180 of them
          Given,
          Skips,   \* whether registering is to be skipped
          Going, Ended, Useless, \* statuses
          Lats,    \* how long a call may take
          Bases,   \* the base of a run: "none", "own", "other", "malformed"
          Errors,  \* "500", "network", "404", "403", "401"
          MaxPolls \* calls that do not lead anywhere

VARIABLES entry, opt, skip,
          phase, \* "latest", "head", "patch", "merged", "mark", "base", "ok", "failed"
          resting, \* until the next call
          el, eff, res, base, marked, polls, act
vars == <<entry, opt, skip, phase, resting, el, eff, res, base, marked, polls, act>>
View == <<entry, opt, skip, phase, resting, el, eff, res, base, marked, polls>>
Rec == [entry |-> entry, opt |-> opt, skip |-> skip, phase |-> phase, resting |-> resting, el |-> el, eff |-> eff, res |-> res, base |-> base, marked |-> marked, polls |-> polls]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == /\ entry \in Entries /\ opt \in Opts /\ skip \in Skips /\ phase = (IF entry = "commit" THEN "latest" ELSE "head") /\ resting = FALSE
        /\ el = 0 /\ eff = "head" /\ res = "none" /\ base = "none" /\ marked = "none" /\ polls = 0 /\ act = [n |-> "init"]
Fixed == UNCHANGED <<entry, opt, skip>>
Budget == IF opt = "default" THEN 180 ELSE Given
Asking == ~resting /\ phase \notin {"ok", "failed"}
Permanent(e) == e \in {"404", "403", "401"}

(* another try after the pause, unless the budget is used up *)
Again(t) == resting' = TRUE /\ polls < MaxPolls /\ polls' = polls + 1 /\ el' = t /\ UNCHANGED <<phase, eff, res, base, marked>>
Rest == /\ resting /\ resting' = FALSE /\ el' = el + 1 /\ act' = [n |-> "rest"] /\ Fixed /\ UNCHANGED <<phase, eff, res, base, marked, polls>>

(* the run to report against is known *)
AfterMark(r, b) == IF b = "other" THEN "base" ELSE "ok"
Known(r, b) == /\ res' = r /\ base' = b /\ phase' = (IF skip THEN AfterMark(r, b) ELSE "mark") /\ UNCHANGED <<marked, resting, polls>>

Latest(k, lat) ==
  /\ Asking /\ phase = "latest" /\ act' = [n |-> "latest", k |-> k, lat |-> lat] /\ Fixed /\ el' = 0 \* the budget starts afterwards
  /\ phase' = (IF k = "found" THEN "head" ELSE "failed") /\ UNCHANGED <<resting, eff, res, base, marked, polls>>
Head0(st, b, lat) ==
  /\ Asking /\ phase = "head" /\ act' = [n |-> "head", st |-> st, b |-> b, lat |-> lat] /\ Fixed
  /\ CASE st \in Going -> IF el + lat > Budget THEN phase' = "failed" /\ el' = el + lat /\ UNCHANGED <<resting, eff, res, base, marked, polls>> ELSE Again(el + lat)
       [] st \in Useless -> phase' = "ok" /\ res' = "head" /\ el' = el + lat /\ UNCHANGED <<resting, eff, base, marked, polls>>
       [] OTHER -> phase' = "patch" /\ base' = b /\ el' = el + lat /\ UNCHANGED <<resting, eff, res, marked, polls>>
HeadFails(e, lat) ==
  /\ Asking /\ phase = "head" /\ act' = [n |-> "fails", e |-> e, lat |-> lat] /\ Fixed
  /\ IF Permanent(e) \/ el + lat > Budget THEN phase' = "failed" /\ el' = el + lat /\ UNCHANGED <<resting, eff, res, base, marked, polls>> ELSE Again(el + lat)
(* whether the run is being repaired, and which one its results end up in *)
Patch(going, to, lat) ==
  /\ Asking /\ phase = "patch" /\ act' = [n |-> "patch", going |-> going, to |-> to, lat |-> lat] /\ Fixed
  /\ IF going /\ el + lat <= Budget THEN Again(el + lat)
     ELSE /\ eff' = to /\ el' = el + lat
          /\ IF to = "head" THEN Known("head", base) ELSE phase' = "merged" /\ UNCHANGED <<resting, res, base, marked, polls>>
PatchFails(e, lat) ==
  /\ Asking /\ phase = "patch" /\ act' = [n |-> "fails", e |-> e, lat |-> lat] /\ Fixed
  /\ IF e = "404" \/ el + lat > Budget THEN el' = el + lat /\ eff' = "head" /\ Known("head", base) ELSE Again(el + lat)
Merged(b, lat) ==
  /\ Asking /\ phase = "merged" /\ act' = [n |-> "merged", b |-> b, lat |-> lat] /\ Fixed /\ el' = el + lat /\ eff' = eff /\ Known("merged", b)
MergedFails(e, lat) ==
  /\ Asking /\ phase = "merged" /\ act' = [n |-> "fails", e |-> e, lat |-> lat] /\ Fixed
  /\ IF el + lat > Budget THEN el' = el + lat /\ eff' = eff /\ Known("head", base) ELSE Again(el + lat)
Mark(k, lat) ==
  /\ Asking /\ phase = "mark" /\ act' = [n |-> "mark", k |-> k, lat |-> lat] /\ Fixed /\ marked' = res /\ phase' = AfterMark(res, base) /\ el' = el + lat /\ UNCHANGED <<resting, eff, res, base, polls>>
Base(st, lat) ==
  /\ Asking /\ phase = "base" /\ act' = [n |-> "base", st |-> st, lat |-> lat] /\ Fixed
  /\ IF st \in Going /\ el + lat <= Budget THEN Again(el + lat) ELSE phase' = "ok" /\ el' = el + lat /\ UNCHANGED <<resting, eff, res, base, marked, polls>>
BaseFails(e, lat) ==
  /\ Asking /\ phase = "base" /\ act' = [n |-> "fails", e |-> e, lat |-> lat] /\ Fixed
  /\ IF e \in {"404", "403"} \/ el + lat > Budget THEN phase' = "ok" /\ el' = el + lat /\ UNCHANGED <<resting, eff, res, base, marked, polls>> ELSE Again(el + lat)
Next == Rest \/ \E lat \in Lats : \/ \E k \in {"found", "missing", "500"} : Latest(k, lat)
                                  \/ \E st \in Going \cup Ended \cup Useless : (\E b \in (IF st \in Ended THEN Bases ELSE {"none"}) : Head0(st, b, lat)) \/ Base(st, lat)
                                  \/ \E e \in Errors : HeadFails(e, lat) \/ PatchFails(e, lat) \/ MergedFails(e, lat) \/ BaseFails(e, lat)
                                  \/ \E g \in BOOLEAN, to \in {"head", "merged"} : Patch(g, to, lat)
                                  \/ \E b \in Bases : Merged(b, lat)
                                  \/ \E k \in {"ok", "404", "500"} : Mark(k, lat)
Spec == Init /\ [][Next]_vars

(* nothing is asked for once the budget has been used up and a first answer has come since *)
WithinBudget == Asking /\ phase = "head" => el <= Budget + 1 + 2 * 200
FailsOnlyEarly == phase = "failed" => res = "none" /\ marked = "none"
MarkedIsReturned == marked # "none" => marked = res
SkipIsHeeded == skip => marked = "none"
(* transient failures do not fail it within the budget *)
Robust == [][phase' = "failed" /\ phase # "failed" /\ act'.n = "fails" => Permanent(act'.e) \/ el' > Budget]_vars
NeverBackToEarlier == [][res # "none" => res' = res]_vars
=============================================================================
