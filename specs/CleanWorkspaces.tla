-------------------------- MODULE CleanWorkspaces --------------------------
(***************************************************************************)
(* W03.  Cleaning up debug workspaces.  A place below the folder of the    *)
(* workspaces is empty or holds a workspace ("plain", "linked": with links *)
(* to other folders, "tree": with a worktree of the project's repository,  *)
(* "own": with a project folder of its own), or something that is none: a  *)
(* "file", or a "link" to a folder elsewhere.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Places, Kinds, Froms, Asks, MaxSteps
VARIABLES ws, from,   \* whether the tool runs in the project's repository or elsewhere
          stuck,      \* workspaces that cannot be deleted at the moment
          trees,      \* places whose worktree the repository knows of
          steps, act
vars == <<ws, from, stuck, trees, steps, act>>
View == <<ws, from, stuck, trees, steps>>
Rec == [ws |-> ws, from |-> from, stuck |-> stuck, trees |-> trees]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
Workspaces == {p \in Places : ws[p] \in {"plain", "linked", "tree", "own"}}
Init == ws = [p \in Places |-> "none"] /\ from \in Froms /\ stuck = {} /\ trees = {} /\ steps = 0 /\ act = [n |-> "init"]
Step == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED from
Make(p, k) == Step /\ ws[p] = "none" /\ ~(k = "tree" /\ p \in trees) /\ ws' = [ws EXCEPT ![p] = k] /\ trees' = (IF k = "tree" THEN trees \cup {p} ELSE trees) /\ act' = [n |-> "make", p |-> p, k |-> k] /\ UNCHANGED stuck
Stick(p) == Step /\ p \in Workspaces \ stuck /\ ws[p] # "tree" /\ stuck' = stuck \cup {p} /\ act' = [n |-> "stick", p |-> p] /\ UNCHANGED <<ws, trees>>
(* what the answers choose *)
Clean(q, S) ==
  /\ Step /\ q \in Asks /\ S \subseteq Workspaces /\ (q \in {"flag", "yes"} => S = Workspaces) /\ (q \in {"cancel", "no"} => S = {})
  /\ ws' = [p \in Places |-> IF p \in S \ stuck THEN "none" ELSE ws[p]]
  \* worktrees are also taken off the list of the repository if the tool runs there; elsewhere it is not known
  /\ trees' = (IF from = "repo" THEN {p \in trees : ws'[p] # "none"} ELSE trees)
  /\ act' = [n |-> "clean", q |-> q, s |-> S] /\ UNCHANGED stuck
Next == (\E p \in Places : (\E k \in Kinds : Make(p, k)) \/ Stick(p)) \/ (\E q \in Asks : \E S \in SUBSET Places : Clean(q, S))
Spec == Init /\ [][Next]_vars

(* only what was chosen goes, and only cleaning removes anything *)
OnlyChosen == [][\A p \in Places : (ws[p] # "none" /\ ws'[p] = "none") => (act'.n = "clean" /\ p \in act'.s)]_vars
NothingElse == [][\A p \in Places : ws[p] \in {"file", "link"} => ws'[p] = ws[p]]_vars
NoTreeIsForgotten == from = "repo" => \A p \in trees : ws[p] = "tree"
============================================================================
