------------------------------ MODULE Onboard ------------------------------
(***************************************************************************)
(* K02.  The onboarding workspace is laid out below the repository's root, *)
(* where somebody may have put something before, also while the agent      *)
(* runs.  Wherever a link is in the way it is refused; else the workspace  *)
(* is complete, is ignored by git, and doing it again changes nothing.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Dirs, Files,  \* places of the workspace
          LinkKinds, Ignores, \* what .gitignore is like: "absent", "has", "hasslash", "hascrlf", "other", "open" (no newline at the end), "commented", "empty", "dir", links
          Templates, \* "complete", "noagent", "nodoc"
          MaxSeeds, MaxOps

VARIABLES seeds, \* what was put there: <<place, type>>
          ign, tpl, done, \* done: the workspace is there
          entries, \* how often .gitignore names the workspace
          nops, result, act
vars == <<seeds, ign, tpl, done, entries, nops, result, act>>
View == <<seeds, ign, tpl, done, entries, nops, result>>
Rec == [seeds |-> seeds, ign |-> ign, tpl |-> tpl, done |-> done, entries |-> entries, nops |-> nops, result |-> result]
Emit == PrintT("@@" \o ToJson(<<Rec, act', Rec', TLCGet("level")>>))
ParentOf(p) == CASE p \in {"wsignore", "claude", "context2"} -> "ws" [] p \in {"claudemd", "settings", "agents", "docs", "context1"} -> "claude" [] p = "agent" -> "agents" [] p \in {"howto", "snippets", "doc"} -> "docs" [] p = "nested" -> "howto" [] p = "snippet" -> "snippets" [] OTHER -> ""
Is(p) == IF \E i \in 1..Len(seeds) : seeds[i][1] = p THEN seeds[CHOOSE i \in 1..Len(seeds) : seeds[i][1] = p][2] ELSE "none"
Has(i) == IF i \in {"has", "hasslash", "hascrlf"} THEN 1 ELSE 0

Init == seeds = <<>> /\ ign \in Ignores \cup LinkKinds /\ tpl \in Templates /\ done = FALSE /\ entries = Has(ign) /\ nops = 0 /\ result = "" /\ act = [n |-> "init"]
\* before the workspace is there; a file where a directory belongs, and the other way round, as well
Seed(p, t) == /\ Len(seeds) < MaxSeeds /\ ~done /\ nops = 0 /\ Is(p) = "none" /\ (ParentOf(p) = "" \/ Is(ParentOf(p)) = "dir") /\ seeds' = Append(seeds, <<p, t>>) /\ act' = [n |-> "seed", p |-> p, t |-> t] /\ UNCHANGED <<ign, tpl, done, entries, nops, result>>
\* while the agent runs: what is there is replaced by a link
Replace(p, t) == /\ done /\ Len(seeds) < MaxSeeds /\ (\A i \in 1..Len(seeds) : seeds[i][2] \notin LinkKinds) /\ seeds' = Append(SelectSeq(seeds, LAMBDA s : s[1] # p), <<p, t>>) /\ act' = [n |-> "replace", p |-> p, t |-> t] /\ UNCHANGED <<ign, tpl, done, entries, nops, result>>
InTheWay(p) == LET t == Is(p) IN t # "none" /\ t # (IF p \in Dirs THEN "dir" ELSE "file")
Bad == \E p \in Dirs \cup Files : InTheWay(p)
Lay ==
  /\ nops < MaxOps /\ nops' = nops + 1 /\ act' = [n |-> "lay"] /\ UNCHANGED <<ign, tpl>>
  /\ IF Bad \/ tpl # "complete" \/ ign \in LinkKinds \cup {"dir"} THEN result' = "error" /\ UNCHANGED <<seeds, done, entries>>
     ELSE result' = "ok" /\ done' = TRUE /\ entries' = 1 /\ seeds' = <<>>
Update ==
  /\ nops < MaxOps /\ nops' = nops + 1 /\ done /\ act' = [n |-> "update"] /\ UNCHANGED <<seeds, ign, tpl, done, entries>>
  /\ result' = (IF \E p \in {"ws", "claude", "context1", "context2"} : InTheWay(p) THEN "error" ELSE "ok")
Next == (\E p \in Dirs \cup Files, t \in {"dir", "file"} \cup LinkKinds : Seed(p, t)) \/ (\E p \in Dirs \cup Files, t \in LinkKinds : Replace(p, t)) \/ Lay \/ Update
\* after a refusal nothing more is asked: what was laid out until then is of no interest
Go == result # "error" /\ Next
Spec == Init /\ [][Go]_vars

---------------------------------------------------------------------------
IgnoredOnce == done => entries = 1
NoLinkUsed == [][(nops' > nops /\ result' = "ok" /\ act'.n = "lay") => \A i \in 1..Len(seeds) : seeds[i][2] \notin LinkKinds]_vars
Unmoved == [][(nops' > nops) => (ign' = ign)]_vars
=============================================================================
