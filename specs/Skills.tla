------------------------------- MODULE Skills -------------------------------
(***************************************************************************)
(* K02.  An external installer writes below .claude, .agents and .cursor   *)
(* of the repository.  It is fetched where the repository has no say, and  *)
(* neither starts nor succeeds while a link lies where it writes.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Roots, Depths, \* a link or file lies at: 0 the root, 1 its skills, 2 a skill, 3 within a skill
          Kinds,   \* "link", "file", "skill" (a directory)
          Npms,    \* fetching the installer: "ok", "fails", "incomplete", "missing" (no npm)
          Runs,    \* the installer: "ok", "fails", "missing", "plants" (a link, and succeeds), "plantsfails"
          MaxSeeds, MaxInstalls

VARIABLES seeds, lock, \* lock: skills-lock.json is "none", "file", "link", "dir"
          spawned, \* what was run: a sequence
          result, installs, act
vars == <<seeds, lock, spawned, result, installs, act>>
View == <<seeds, lock, spawned, result, installs>>
Rec == [seeds |-> seeds, lock |-> lock, spawned |-> spawned, result |-> result, installs |-> installs]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))

Init == seeds = <<>> /\ lock \in {"none", "file", "link"} /\ spawned = <<>> /\ result = "" /\ installs = 0 /\ act = [n |-> "init"]
Taken(r, d) == \E i \in 1..Len(seeds) : seeds[i].r = r /\ seeds[i].d = d
Covered(r, d) == \E i \in 1..Len(seeds) : seeds[i].r = r /\ seeds[i].d < d /\ seeds[i].k # "skill"
Above(r, d) == \E i \in 1..Len(seeds) : seeds[i].r = r /\ seeds[i].d > d
Seed(r, d, k) == /\ Len(seeds) < MaxSeeds /\ result = "" /\ ~Taken(r, d) /\ ~Covered(r, d) /\ ~Above(r, d) /\ (k = "skill" => d >= 2) /\ seeds' = Append(seeds, [r |-> r, d |-> d, k |-> k]) /\ act' = [n |-> "seed", r |-> r, d |-> d, k |-> k] /\ UNCHANGED <<lock, spawned, result, installs>>
Linked == lock = "link" \/ \E i \in 1..Len(seeds) : seeds[i].k = "link"
Blocked == \E i \in 1..Len(seeds) : seeds[i].k = "file" /\ seeds[i].d <= 1
Install(n, x) ==
  /\ installs < MaxInstalls /\ result # "refused" /\ installs' = installs + 1 /\ act' = [n |-> "install", npm |-> n, run |-> x] /\ UNCHANGED <<seeds, lock>> /\ (n # "ok" => x = "ok")
  /\ IF Linked \/ Blocked THEN result' = "refused" /\ spawned' = spawned
     ELSE IF n # "ok" THEN result' = "no" /\ spawned' = Append(spawned, "npm")
     ELSE /\ spawned' = spawned \o <<"npm", "cli">> /\ result' = (CASE x \in {"plants", "plantsfails"} -> "refused" [] x = "ok" -> "yes" [] OTHER -> "no")
Next == (\E r \in Roots, d \in Depths, k \in Kinds : Seed(r, d, k)) \/ (\E n \in Npms, x \in Runs : Install(n, x))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
NotStarted == [][((lock = "link" \/ (\E i \in 1..Len(seeds) : seeds[i].k = "link")) /\ installs' > installs) => (spawned' = spawned /\ result' = "refused")]_vars
FetchedFirst == \A i \in 1..Len(spawned) : spawned[i] = "cli" => (i > 1 /\ spawned[i-1] = "npm")
YesOnlyIfRun == result = "yes" => (spawned # <<>> /\ spawned[Len(spawned)] = "cli")
=============================================================================
